//! Type-directed random generator of valid modules and scenarios.
use crate::refint::{GlobTy, ImpTy, Kind, MemTy, Sig, TabTy};
use crate::world::{Act, Arg, Beh, MemOp, Mode, ObjRef, Ret, Scenario, Step, TabOp};
use spec::{Ty, V128, Val};
#[allow(unused_imports)] use spec::{F32, F64};
use std::cell::RefCell;
use std::rc::Rc;
use wasm_encoder as we;
use we::{BlockType, HeapType, Instruction as I, MemArg, RefType, ValType};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x5DEE_CE66_D1CE_5EED); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn pct(&mut self, p: u32) -> bool { self.next() % 100 < p as u64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}
pub const ALL: [Ty; 7] = [Ty::I32, Ty::I64, Ty::F32, Ty::F64, Ty::V128, Ty::FuncRef, Ty::ExternRef];
pub fn ety(t: Ty) -> ValType { match t { Ty::I32 => ValType::I32, Ty::I64 => ValType::I64, Ty::F32 => ValType::F32, Ty::F64 => ValType::F64, Ty::V128 => ValType::V128, Ty::FuncRef => ValType::Ref(RefType::FUNCREF), Ty::ExternRef => ValType::Ref(RefType::EXTERNREF) } }

/// Which parts of the language a check stresses (relative weights or percentages).
#[derive(Clone)]
pub struct Prof {
    pub types: Vec<Ty>, pub ops: u32, pub simd: u32, pub mem: u32, pub bulk: u32, pub table: u32, pub call: u32, pub indirect: u32, pub tail: u32, pub ctrl: u32, pub glob: u32, pub refs: u32,
    pub idiom: u32, pub dead: u32, pub m64: u32, pub host: u32, pub grow: u32, pub recurse: u32, pub funcs: usize, pub stmts: usize, pub depth: u32, pub calls: usize, pub many_locals: u32, pub loops: u32, pub oob: u32,
}
impl Default for Prof { fn default() -> Prof { Prof { types: ALL.to_vec(), ops: 10, simd: 3, mem: 6, bulk: 2, table: 2, call: 4, indirect: 2, tail: 2, ctrl: 8, glob: 4, refs: 2, idiom: 8, dead: 15, m64: 25, host: 30, grow: 2, recurse: 20, funcs: 4, stmts: 5, depth: 3, calls: 5, many_locals: 3, loops: 6, oob: 6 } } }

#[derive(Clone, Debug)]
pub struct SegInfo { pub len: u64, pub el: Ty }
#[derive(Clone)]
pub struct GM { pub types: Rc<RefCell<Vec<Sig>>>, pub imports: Vec<(String, String, ImpTy)>, pub funcs: Vec<u32>, pub rec: Vec<bool>, pub nf: usize,
    pub tabs: Vec<TabTy>, pub nt: usize, pub mems: Vec<MemTy>, pub nm: usize, pub globs: Vec<GlobTy>, pub ng: usize, pub elems: Vec<SegInfo>, pub datas: Vec<SegInfo>, pub start: Option<u32>, pub bytes: Rc<Vec<u8>> }
impl GM {
    pub fn sig(&self, f: usize) -> Sig { self.types.borrow()[self.funcs[f] as usize].clone() }
    pub fn ty_idx(&self, s: &Sig) -> u32 { let mut t = self.types.borrow_mut(); if let Some(i) = t.iter().position(|x| x == s) { return i as u32; } t.push(s.clone()); t.len() as u32 - 1 }
    pub fn export(&self, k: Kind, i: usize) -> String { format!("{}{i}", match k { Kind::F => 'f', Kind::T => 't', Kind::M => 'm', Kind::G => 'g' }) }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cl { Int, Float, Conv, Simd }
pub struct OpInfo { pub i: I<'static>, pub a: Vec<Ty>, pub r: Vec<Ty>, pub cl: Cl }
pub fn ops() -> Vec<OpInfo> {
    trait T { const T: Ty; }
    impl T for u32 { const T: Ty = Ty::I32; } impl T for u64 { const T: Ty = Ty::I64; } impl T for spec::F32 { const T: Ty = Ty::F32; } impl T for spec::F64 { const T: Ty = Ty::F64; } impl T for V128 { const T: Ty = Ty::V128; }
    let mut v = vec![];
    macro_rules! int { ($($n:ident ($($a:ident : $t:ty),*) -> ($($r:ty),*) = $e:expr;)*) => { $( v.push(OpInfo { i: I::$n, a: vec![$(<$t>::T),*], r: vec![$(<$r>::T),*], cl: Cl::Int }); )* } }
    macro_rules! flt { ($($n:ident ($($a:ident : $t:ty),*) -> ($($r:ty),*) = $e:expr;)*) => { $( v.push(OpInfo { i: I::$n, a: vec![$(<$t>::T),*], r: vec![$(<$r>::T),*], cl: Cl::Float }); )* } }
    macro_rules! cnv { ($($n:ident ($($a:ident : $t:ty),*) -> ($($r:ty),*) = $e:expr;)*) => { $( v.push(OpInfo { i: I::$n, a: vec![$(<$t>::T),*], r: vec![$(<$r>::T),*], cl: Cl::Conv }); )* } }
    macro_rules! smd { ($($n:ident ($($a:ident : $t:ty),*) -> $r:ty [$k:ident] = $e:expr;)*) => { $( v.push(OpInfo { i: I::$n, a: vec![$(<$t>::T),*], r: vec![<$r>::T], cl: Cl::Simd }); )* } }
    spec::int_ops!(int); spec::intmul_ops!(int); spec::float_ops!(flt); spec::fsign_ops!(flt); spec::farith_ops!(flt); spec::conv_ops!(cnv); spec::reinterpret_ops!(cnv);
    spec::simd_int_ops!(smd); spec::simd_mul_ops!(smd); spec::simd_float_ops!(smd); spec::simd_farith_ops!(smd);
    for l in 0..16u8 { v.push(OpInfo { i: I::I8x16ExtractLaneS(l), a: vec![Ty::V128], r: vec![Ty::I32], cl: Cl::Simd }); v.push(OpInfo { i: I::I8x16ExtractLaneU(l), a: vec![Ty::V128], r: vec![Ty::I32], cl: Cl::Simd }); v.push(OpInfo { i: I::I8x16ReplaceLane(l), a: vec![Ty::V128, Ty::I32], r: vec![Ty::V128], cl: Cl::Simd }); }
    for l in 0..8u8 { v.push(OpInfo { i: I::I16x8ExtractLaneS(l), a: vec![Ty::V128], r: vec![Ty::I32], cl: Cl::Simd }); v.push(OpInfo { i: I::I16x8ExtractLaneU(l), a: vec![Ty::V128], r: vec![Ty::I32], cl: Cl::Simd }); v.push(OpInfo { i: I::I16x8ReplaceLane(l), a: vec![Ty::V128, Ty::I32], r: vec![Ty::V128], cl: Cl::Simd }); }
    for l in 0..4u8 { v.push(OpInfo { i: I::I32x4ExtractLane(l), a: vec![Ty::V128], r: vec![Ty::I32], cl: Cl::Simd }); v.push(OpInfo { i: I::I32x4ReplaceLane(l), a: vec![Ty::V128, Ty::I32], r: vec![Ty::V128], cl: Cl::Simd }); v.push(OpInfo { i: I::F32x4ExtractLane(l), a: vec![Ty::V128], r: vec![Ty::F32], cl: Cl::Simd }); v.push(OpInfo { i: I::F32x4ReplaceLane(l), a: vec![Ty::V128, Ty::F32], r: vec![Ty::V128], cl: Cl::Simd }); }
    for l in 0..2u8 { v.push(OpInfo { i: I::I64x2ExtractLane(l), a: vec![Ty::V128], r: vec![Ty::I64], cl: Cl::Simd }); v.push(OpInfo { i: I::I64x2ReplaceLane(l), a: vec![Ty::V128, Ty::I64], r: vec![Ty::V128], cl: Cl::Simd }); v.push(OpInfo { i: I::F64x2ExtractLane(l), a: vec![Ty::V128], r: vec![Ty::F64], cl: Cl::Simd }); v.push(OpInfo { i: I::F64x2ReplaceLane(l), a: vec![Ty::V128, Ty::F64], r: vec![Ty::V128], cl: Cl::Simd }); }
    v
}

thread_local! { static OPS: Vec<OpInfo> = ops(); }

// ---------------------------------------------------------------- values
pub fn rint(r: &mut Rng) -> u64 {
    match r.below(10) { 0 => 0, 1 => 1, 2 => u64::MAX, 3 => r.below(300) as u64, 4 => 1 << r.below(64), 5 => (1u64 << r.below(64)).wrapping_sub(1), 6 => (r.below(64) as u64).wrapping_neg(), 7 => *r.pick(&[7, 8, 15, 16, 24, 31, 32, 48, 56, 63, 64, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 63, (1 << 63) - 1]), 8 => r.next() as u32 as u64, _ => r.next() }
}
pub fn rf32(r: &mut Rng) -> u32 { match r.below(8) { 0 => 0, 1 => 0x8000_0000, 2 => (r.below(20) as f32 - 10.0).to_bits(), 3 => (r.below(40) as f32 * 0.5 - 10.0).to_bits(), 4 => *r.pick(&[0x7f80_0000, 0xff80_0000, 1, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff, 0x4f00_0000, 0xcf00_0000, 0x4f80_0000, 0x5f00_0000, 0x5f80_0000]), 5 => (rint(r) as f32).to_bits(), _ => (rint(r) as i64 as f32).to_bits() } }
pub fn rf64(r: &mut Rng) -> u64 { match r.below(8) { 0 => 0, 1 => 1 << 63, 2 => (r.below(20) as f64 - 10.0).to_bits(), 3 => (r.below(40) as f64 * 0.5 - 10.0).to_bits(), 4 => *r.pick(&[0x7ff0 << 48, 0xfff0 << 48, 1, 0x41e0_0000_0000_0000, 0xc1e0_0000_0020_0000, 0x43e0_0000_0000_0000, 0x43f0_0000_0000_0000, 0x7fef_ffff_ffff_ffff]), 5 => (rint(r) as f64).to_bits(), _ => (rint(r) as i64 as f64).to_bits() } }
pub fn rval(r: &mut Rng, t: Ty) -> Val {
    match t { Ty::I32 => Val::I32(rint(r) as u32), Ty::I64 => Val::I64(rint(r)), Ty::F32 => Val::F32(rf32(r)), Ty::F64 => Val::F64(rf64(r)),
        Ty::V128 => { let mut b = [0u8; 16]; match r.below(3) { 0 => { let x = rint(r); b[..8].copy_from_slice(&x.to_le_bytes()); let x = rint(r); b[8..].copy_from_slice(&x.to_le_bytes()) } 1 => for c in b.chunks_mut(2) { c.copy_from_slice(&(rint(r) as u16).to_le_bytes()) }, _ => for c in b.iter_mut() { *c = r.next() as u8 } } Val::V(V128(b)) }
        Ty::FuncRef => Val::FuncRef(None), Ty::ExternRef => Val::ExternRef(if r.pct(30) { None } else { Some(*r.pick(&[0u32, 1, 2, 7, 0xffff_fffe, 0x8000_0000, 12345])) }) }
}
/// any bit pattern, NaNs included (for direct value transport)
pub fn rbits(r: &mut Rng, t: Ty) -> Val { match t { Ty::F32 if r.pct(40) => Val::F32(*r.pick(&[0x7fc0_0000u32, 0xffc0_0000, 0x7fa0_0001, 0x7f80_0001, 0xffff_ffff, 0x7fff_ffff])), Ty::F64 if r.pct(40) => Val::F64(*r.pick(&[0x7ff8u64 << 48, 0xfff8 << 48, 0x7ff4_0000_0000_0001, 0x7ff0_0000_0000_0001, u64::MAX])), t => rval(r, t) } }

// ---------------------------------------------------------------- function bodies
#[derive(Clone)]
struct L { tys: Vec<Ty>, counter: Option<u32> }
/// label that no generated branch may pick
const NEVER: u32 = u32::MAX;
pub struct F<'a> { g: &'a GM, r: &'a mut Rng, p: &'a Prof, pub c: Vec<I<'static>>, loc: Vec<Ty>, np: usize, keep: Vec<bool>, labels: Vec<L>, fuel: i32, me: usize }
fn m(align: u32, offset: u64, mem: u32) -> MemArg { MemArg { offset, align, memory_index: mem } }
impl F<'_> {
    fn e(&mut self, i: I<'static>) { self.c.push(i); self.fuel -= 1 }
    fn local(&mut self, t: Ty) -> u32 { // writable local of type t
        let v: Vec<u32> = (0..self.loc.len()).filter(|i| self.loc[*i] == t && !self.keep[*i]).map(|i| i as u32).collect();
        if v.is_empty() || (v.len() < 3 && self.r.pct(30)) { self.fresh(t) } else { *self.r.pick(&v) }
    }
    fn any_local(&mut self, t: Ty) -> u32 {
        let v: Vec<u32> = (0..self.loc.len()).filter(|i| self.loc[*i] == t).map(|i| i as u32).collect();
        if v.is_empty() { self.fresh(t) } else { *self.r.pick(&v) }
    }
    fn fresh(&mut self, t: Ty) -> u32 { self.loc.push(t); self.keep.push(false); self.loc.len() as u32 - 1 }
    fn konst(&mut self, v: Val) {
        let i = match v { Val::I32(x) => I::I32Const(x as i32), Val::I64(x) => I::I64Const(x as i64), Val::F32(x) => I::F32Const(we::Ieee32::new(x)), Val::F64(x) => I::F64Const(we::Ieee64::new(x)), Val::V(v) => I::V128Const(i128::from_le_bytes(v.0)),
            Val::FuncRef(_) => I::RefNull(HeapType::FUNC), Val::ExternRef(_) => I::RefNull(HeapType::EXTERN) };
        self.e(i)
    }
    fn ty(&mut self) -> Ty { *self.r.pick(&self.p.types.clone()) }
    fn leaf(&mut self, t: Ty) {
        match self.r.below(10) {
            0..=4 => { let l = self.any_local(t); self.e(I::LocalGet(l)) }
            5 if self.g.globs.iter().any(|g| g.ty == t) => { let v: Vec<u32> = (0..self.g.globs.len() as u32).filter(|i| self.g.globs[*i as usize].ty == t).collect(); let g = *self.r.pick(&v); self.e(I::GlobalGet(g)) }
            6 if t == Ty::FuncRef => { let f = self.r.below(self.g.funcs.len()) as u32; self.e(I::RefFunc(f)) }
            _ => { let v = rval(self.r, t); self.konst(v) }
        }
    }
    fn mem(&mut self) -> Option<usize> { if self.g.mems.is_empty() { None } else { Some(self.r.below(self.g.mems.len())) } }
    /// an address expression, mostly in the first bytes of the memory
    fn addr(&mut self, mem: usize, d: u32) {
        let m64 = self.g.mems[mem].m64;
        let t = if m64 { Ty::I64 } else { Ty::I32 };
        let oob = self.p.oob;
        if self.r.pct(oob) {
            let size = self.g.mems[mem].min * self.g.mems[mem].page;
            let v = match self.r.below(3) { 0 => size.wrapping_sub(self.r.below(20) as u64), 1 => rint(self.r), _ => size + self.r.below(70000) as u64 };
            self.konst(if m64 { Val::I64(v) } else { Val::I32(v as u32) });
        } else if self.r.pct(50) { let v = self.r.below(48) as u64; self.konst(if m64 { Val::I64(v) } else { Val::I32(v as u32) }) }
        else { self.expr(t, d.saturating_sub(1)); self.konst(if m64 { Val::I64(31) } else { Val::I32(31) }); self.e(if m64 { I::I64And } else { I::I32And }) }
    }
    fn memarg(&mut self, mem: usize, maxalign: u32) -> MemArg {
        let off = match self.r.below(20) { 0..=11 => 0, 12..=17 => self.r.below(16) as u64, 18 => self.r.below(70000) as u64, _ => if self.r.pct(self.p.oob) { if self.g.mems[mem].m64 { rint(self.r) } else { rint(self.r) as u32 as u64 } } else { 1 } };
        let al = self.r.below(maxalign as usize + 1) as u32;
        m(al, off, mem as u32)
    }
    fn load(&mut self, t: Ty, d: u32) -> bool {
        let Some(mem) = self.mem() else { return false };
        let a = match t { Ty::I32 | Ty::F32 => 2, Ty::I64 | Ty::F64 => 3, Ty::V128 => 4, _ => return false };
        let k = self.r.below(13);
        let maxal = match t { Ty::I32 => [2, 2, 0, 0, 1, 1][k % 6], Ty::I64 => [3, 3, 0, 0, 1, 1, 2, 2][k % 8], Ty::V128 => match k { 0 | 1 => 4, 2..=5 | 10 => 3, 6 => 0, 7 => 1, 8 => 2, 9 => 3, 11 => 2, _ => 3 }, _ => a };
        let ma = self.memarg(mem, maxal);
        self.addr(mem, d);
        let i = match t { Ty::F32 => I::F32Load(ma), Ty::F64 => I::F64Load(ma),
            Ty::I32 => match k % 6 { 0 | 1 => I::I32Load(ma), 2 => I::I32Load8S(ma), 3 => I::I32Load8U(ma), 4 => I::I32Load16S(ma), _ => I::I32Load16U(ma) },
            Ty::I64 => match k % 8 { 0 | 1 => I::I64Load(ma), 2 => I::I64Load8S(ma), 3 => I::I64Load8U(ma), 4 => I::I64Load16S(ma), 5 => I::I64Load16U(ma), 6 => I::I64Load32S(ma), _ => I::I64Load32U(ma) },
            _ => match k { 0 | 1 => I::V128Load(ma), 2 => I::V128Load8x8S(ma), 3 => I::V128Load8x8U(ma), 4 => I::V128Load16x4S(ma), 5 => I::V128Load16x4U(ma), 10 => I::V128Load32x2S(ma), 6 => I::V128Load8Splat(ma), 7 => I::V128Load16Splat(ma), 8 => I::V128Load32Splat(ma), 9 => I::V128Load64Splat(ma), 11 => I::V128Load32Zero(ma), _ => if self.r.pct(50) { I::V128Load64Zero(ma) } else { I::V128Load32x2U(ma) } } };
        self.e(i);
        true
    }
    fn store(&mut self, d: u32) {
        let Some(mem) = self.mem() else { return };
        let t = *self.r.pick(&[Ty::I32, Ty::I32, Ty::I64, Ty::F32, Ty::F64, Ty::V128]);
        let k = self.r.below(8);
        let maxal = match t { Ty::I32 => [2, 2, 0, 1][k % 4], Ty::I64 => [3, 3, 0, 1, 2][k % 5], Ty::F32 => 2, Ty::F64 => 3, _ => [4, 4, 4, 4, 0, 1, 2, 3][k] };
        let ma = self.memarg(mem, maxal);
        self.addr(mem, d);
        self.expr(t, d);
        let lane = self.r.next() as u8;
        let i = match t { Ty::F32 => I::F32Store(ma), Ty::F64 => I::F64Store(ma),
            Ty::I32 => match k % 4 { 0 | 1 => I::I32Store(ma), 2 => I::I32Store8(ma), _ => I::I32Store16(ma) },
            Ty::I64 => match k % 5 { 0 | 1 => I::I64Store(ma), 2 => I::I64Store8(ma), 3 => I::I64Store16(ma), _ => I::I64Store32(ma) },
            _ => match k { 0..=3 => I::V128Store(ma), 4 => I::V128Store8Lane { memarg: ma, lane: lane & 15 }, 5 => I::V128Store16Lane { memarg: ma, lane: lane & 7 }, 6 => I::V128Store32Lane { memarg: ma, lane: lane & 3 }, _ => I::V128Store64Lane { memarg: ma, lane: lane & 1 } } };
        self.e(i)
    }
    fn bt(&mut self, p: &[Ty], r: &[Ty]) -> BlockType {
        if p.is_empty() && r.is_empty() { BlockType::Empty } else if p.is_empty() && r.len() == 1 && self.r.pct(80) { BlockType::Result(ety(r[0])) } else { BlockType::FunctionType(self.g.ty_idx(&Sig { p: p.to_vec(), r: r.to_vec() })) }
    }
    fn cond(&mut self, d: u32) {
        if self.r.pct(50) { self.expr(Ty::I32, d.saturating_sub(1)); return }
        let t = if self.r.pct(70) { Ty::I32 } else { Ty::I64 };
        self.leaf(t);
        if self.r.pct(25) { self.e(if t == Ty::I32 { I::I32Eqz } else { I::I64Eqz }); if self.r.pct(20) { self.e(I::I32Eqz) } return }
        if self.r.pct(60) { let v = if self.r.pct(30) { 0 } else { rint(self.r) }; self.konst(if t == Ty::I32 { Val::I32(v as u32) } else { Val::I64(v) }) } else { self.leaf(t) }
        self.cmp(t)
    }
    fn cmp(&mut self, t: Ty) {
        let k = self.r.below(10);
        let a = [I::I32Eq, I::I32Ne, I::I32LtS, I::I32LtU, I::I32GtS, I::I32GtU, I::I32LeS, I::I32LeU, I::I32GeS, I::I32GeU];
        let b = [I::I64Eq, I::I64Ne, I::I64LtS, I::I64LtU, I::I64GtS, I::I64GtU, I::I64LeS, I::I64LeU, I::I64GeS, I::I64GeU];
        self.e(if t == Ty::I32 { a[k].clone() } else { b[k].clone() })
    }
    /// leave exactly one value of type t on the stack
    pub fn expr(&mut self, t: Ty, d: u32) {
        if d == 0 || self.fuel <= 0 { return self.leaf(t) }
        let p = self.p;
        let w = [14, p.ops * 2, if t == Ty::V128 { p.simd * 4 } else { p.simd }, p.mem, p.ctrl, p.call, p.indirect, 4, p.refs, p.ctrl / 2, p.grow, p.idiom / 2, 4];
        match self.weight(&w) {
            0 => self.leaf(t),
            k @ (1 | 2) => {
                let cand: Vec<usize> = OPS.with(|o| o.iter().enumerate().filter(|(_, o)| o.r.last() == Some(&t) && o.r.iter().all(|x| *x == t) && (k == 2) == (o.cl == Cl::Simd)).map(|(i, _)| i).collect());
                if cand.is_empty() { return self.leaf(t) }
                let i = *self.r.pick(&cand);
                let (ins, a, n) = OPS.with(|o| (o[i].i.clone(), o[i].a.clone(), o[i].r.len()));
                for (j, x) in a.iter().enumerate() { let dd = if j == 0 { d - 1 } else { (d - 1).min(1) }; self.expr(*x, dd) }
                // mostly avoid dividing by zero
                if matches!(ins, I::I32DivS | I::I32DivU | I::I32RemS | I::I32RemU) && self.r.pct(90) { self.e(I::I32Const(1)); self.e(I::I32Or) }
                if matches!(ins, I::I64DivS | I::I64DivU | I::I64RemS | I::I64RemU) && self.r.pct(90) { self.e(I::I64Const(1)); self.e(I::I64Or) }
                let trap = matches!(ins, I::I32TruncF32S | I::I32TruncF32U | I::I32TruncF64S | I::I32TruncF64U | I::I64TruncF32S | I::I64TruncF32U | I::I64TruncF64S | I::I64TruncF64U);
                if trap && self.r.pct(85) { let s = match ins { I::I32TruncF32S => I::I32TruncSatF32S, I::I32TruncF32U => I::I32TruncSatF32U, I::I32TruncF64S => I::I32TruncSatF64S, I::I32TruncF64U => I::I32TruncSatF64U, I::I64TruncF32S => I::I64TruncSatF32S, I::I64TruncF32U => I::I64TruncSatF32U, I::I64TruncF64S => I::I64TruncSatF64S, _ => I::I64TruncSatF64U }; self.e(s) } else { self.e(ins) }
                if n == 2 { if self.r.pct(50) { let l = self.local(t); self.e(I::LocalSet(l)) } else { self.e(I::Drop) } }
            }
            3 => if !self.load(t, d - 1) { self.leaf(t) },
            4 => self.block_expr(t, d),
            5 => if !self.call_expr(t, d, false) { self.leaf(t) },
            6 => if !self.call_expr(t, d, true) { self.leaf(t) },
            7 => { self.expr(t, d - 1); self.expr(t, (d - 1).min(1)); self.cond(1); if matches!(t, Ty::FuncRef | Ty::ExternRef) || self.r.pct(20) { self.e(I::TypedSelect(ety(t))) } else { self.e(I::Select) } }
            8 => match t {
                Ty::I32 => { let rt = if self.r.pct(60) { Ty::FuncRef } else { Ty::ExternRef }; self.expr(rt, d - 1); self.e(I::RefIsNull) }
                Ty::FuncRef | Ty::ExternRef => { let c: Vec<u32> = (0..self.g.tabs.len()).filter(|i| self.g.tabs[*i].el == t).map(|i| i as u32).collect(); if c.is_empty() { self.leaf(t) } else { let x = *self.r.pick(&c); self.tidx(x as usize); self.e(I::TableGet(x)) } }
                _ => self.leaf(t),
            },
            9 => { // value carried by a conditional branch
                let c: Vec<usize> = (0..self.labels.len()).filter(|i| self.labels[*i].tys == [t] && self.labels[*i].counter.is_none()).collect();
                self.expr(t, d - 1);
                if !c.is_empty() { let l = *self.r.pick(&c); self.cond(1); let k = (self.labels.len() - 1 - l) as u32; self.e(I::BrIf(k)) }
            }
            10 => match t {
                Ty::I32 | Ty::I64 => {
                    let m64 = t == Ty::I64;
                    if self.r.pct(50) {
                        let c: Vec<u32> = (0..self.g.mems.len()).filter(|i| self.g.mems[*i].m64 == m64).map(|i| i as u32).collect();
                        if c.is_empty() { return self.leaf(t) }
                        let x = *self.r.pick(&c);
                        if self.r.pct(50) { self.e(I::MemorySize(x)) } else { let v = if self.r.pct(20) { rint(self.r) } else { self.r.below(3) as u64 }; self.konst(if m64 { Val::I64(v) } else { Val::I32(v as u32) }); self.e(I::MemoryGrow(x)) }
                    } else {
                        let c: Vec<u32> = (0..self.g.tabs.len()).filter(|i| self.g.tabs[*i].t64 == m64).map(|i| i as u32).collect();
                        if c.is_empty() { return self.leaf(t) }
                        let x = *self.r.pick(&c);
                        if self.r.pct(50) { self.e(I::TableSize(x)) } else { let el = self.g.tabs[x as usize].el; self.expr(el, 1); let v = if self.r.pct(20) { rint(self.r) } else { self.r.below(4) as u64 }; self.konst(if m64 { Val::I64(v) } else { Val::I32(v as u32) }); self.e(I::TableGrow(x)) }
                    }
                }
                _ => self.leaf(t),
            },
            11 => { // set then get, tee
                self.expr(t, d - 1);
                let l = self.local(t);
                if self.r.pct(50) { self.e(I::LocalTee(l)) } else { self.e(I::LocalSet(l)); self.e(I::LocalGet(l)) }
            }
            _ => { self.expr(t, d - 1); let l = self.local(t); self.e(I::LocalTee(l)) }
        }
    }
    fn weight(&mut self, w: &[u32]) -> usize { let s: u32 = w.iter().sum(); let mut k = self.r.below(s as usize) as u32; for (i, x) in w.iter().enumerate() { if k < *x { return i } k -= x } 0 }
    /// table index expression, mostly small
    fn tidx(&mut self, x: usize) {
        let v = if self.r.pct(self.p.oob) { rint(self.r) } else { self.r.below(self.g.tabs[x].min as usize + 1) as u64 };
        if self.r.pct(60) { self.konst(if self.g.tabs[x].t64 { Val::I64(v) } else { Val::I32(v as u32) }) } else if self.g.tabs[x].t64 { self.leaf(Ty::I64); self.konst(Val::I64(3)); self.e(I::I64And) } else { self.leaf(Ty::I32); self.konst(Val::I32(3)); self.e(I::I32And) }
    }
    fn block_expr(&mut self, t: Ty, d: u32) {
        let np = if self.r.pct(30) { 1 + self.r.below(2) } else { 0 };
        let ps: Vec<Ty> = (0..np).map(|_| self.ty()).collect();
        for x in &ps { self.expr(*x, 1) }
        match self.r.below(5) {
            0 | 1 => { let bt = self.bt(&ps, &[t]); self.e(I::Block(bt)); self.labels.push(L { tys: vec![t], counter: None }); self.entry(&ps); self.body(&[t], d - 1); self.labels.pop(); self.e(I::End) }
            2 | 3 => {
                self.cond(d - 1);
                let bt = self.bt(&ps, &[t]);
                self.e(I::If(bt));
                self.labels.push(L { tys: vec![t], counter: None });
                self.entry(&ps); self.body(&[t], d - 1);
                self.e(I::Else);
                self.entry(&ps); self.body(&[t], d - 1);
                self.labels.pop();
                self.e(I::End)
            }
            _ => self.looped(&ps, &[t], d - 1),
        }
    }
    /// at block entry the parameters are on the stack: consume them
    fn entry(&mut self, ps: &[Ty]) { for x in ps.iter().rev() { if self.r.pct(70) { let l = self.local(*x); self.e(I::LocalSet(l)) } else { self.e(I::Drop) } } }
    fn looped(&mut self, ps: &[Ty], rs: &[Ty], d: u32) {
        let c = self.fresh(Ty::I32);
        self.keep[c as usize] = true;
        let n = 1 + self.r.below(4) as i32;
        self.c.insert(self.c.len(), I::I32Const(n));
        self.e(I::LocalSet(c));
        let bt = self.bt(ps, rs);
        self.e(I::Loop(bt));
        self.labels.push(L { tys: ps.to_vec(), counter: Some(c) });
        self.entry(ps);
        let n = 1 + self.r.below(self.p.stmts);
        for _ in 0..n { self.stmt(d.saturating_sub(1)) }
        // back edge
        for x in ps { self.expr(*x, 1) }
        self.e(I::LocalGet(c));
        if self.r.pct(50) { self.e(I::I32Const(1)); self.e(I::I32Sub) } else { self.e(I::I32Const(-1)); self.e(I::I32Add) }
        self.e(I::LocalTee(c));
        if self.r.pct(50) { self.e(I::I32Const(0)); self.e(I::I32GtS) }
        self.e(I::BrIf(0));
        for _ in ps { self.e(I::Drop) }
        self.body(rs, d.saturating_sub(1));
        self.labels.pop();
        self.e(I::End);
        self.keep[c as usize] = false;
    }
    /// statements, then the values `rs`, or a terminator followed by dead code
    fn body(&mut self, rs: &[Ty], d: u32) {
        let n = if self.fuel <= 0 { 0 } else { self.r.below(self.p.stmts + 1) };
        for _ in 0..n { self.stmt(d) }
        if self.r.pct(self.p.dead) && self.fuel > 0 && self.terminator(d) { self.dead(d); if self.r.pct(60) { return } if self.r.pct(50) { for x in rs { self.leaf(*x) } } return }
        for x in rs { self.expr(*x, d.saturating_sub(1)) }
    }
    /// take one turn from loop counter c; leaves nothing, falls through only while turns remain
    fn turn(&mut self, c: u32) { self.e(I::LocalGet(c)); self.e(I::I32Const(1)); self.e(I::I32Sub); self.e(I::LocalTee(c)); self.e(I::I32Const(0)); self.e(I::I32LeS); self.e(I::If(BlockType::Empty)); self.e(I::Unreachable); self.e(I::End) }
    fn terminator(&mut self, d: u32) -> bool {
        match self.r.below(9) {
            0..=2 => {
                let l = self.r.below(self.labels.len());
                let lb = self.labels[l].clone();
                if lb.counter == Some(NEVER) { return false }
                if let Some(c) = lb.counter { self.turn(c) }
                for x in &lb.tys { self.expr(*x, d.saturating_sub(1)) }
                let k = (self.labels.len() - 1 - l) as u32;
                self.e(I::Br(k))
            }
            3 | 4 => {
                let l = self.r.below(self.labels.len());
                if self.labels[l].counter == Some(NEVER) { return false }
                let tys = self.labels[l].tys.clone();
                let c: Vec<usize> = (0..self.labels.len()).filter(|i| self.labels[*i].tys == tys).collect();
                let n = self.r.below(5);
                let ts: Vec<usize> = (0..=n).map(|_| *self.r.pick(&c)).collect();
                let mut cs: Vec<u32> = ts.iter().filter_map(|t| self.labels[*t].counter).collect();
                cs.sort(); cs.dedup();
                for c in cs { self.turn(c) }
                for x in &tys { self.expr(*x, 1) }
                if self.r.pct(30) { self.expr(Ty::I32, 1) } else { self.leaf(Ty::I32); self.e(I::I32Const(7)); self.e(I::I32And) }
                let k = |t: usize| (self.labels.len() - 1 - t) as u32;
                let (v, def): (Vec<u32>, u32) = (ts[1..].iter().map(|t| k(*t)).collect(), k(ts[0]));
                self.e(I::BrTable(v.into(), def))
            }
            5 | 6 => { let rs = self.labels[0].tys.clone(); if self.r.pct(30) { let t = self.ty(); self.leaf(t) } for x in &rs { self.expr(*x, 1) } self.e(I::Return) }
            7 => return self.tail(d),
            _ => { if self.r.pct(80) { return false } self.e(I::Unreachable) }
        }
        true
    }
    fn dead(&mut self, d: u32) {
        for _ in 0..self.r.below(3) {
            match self.r.below(9) {
                0 => { self.e(I::I32Add); self.e(I::Drop) }
                1 => self.e(I::Drop),
                2 => { let t = self.ty(); let l = self.local(t); self.e(I::LocalSet(l)) }
                3 => { self.e(I::I32Eqz); self.e(I::If(BlockType::Empty)); self.e(I::Nop); self.e(I::Else); self.e(I::Unreachable); self.e(I::End) }
                4 => { self.e(I::Block(BlockType::Empty)); self.labels.push(L { tys: vec![], counter: None }); self.stmt(d.min(1)); self.labels.pop(); self.e(I::End) }
                5 => { let l = self.local(Ty::I64); self.e(I::LocalTee(l)); self.e(I::Drop) }
                6 => { self.e(I::Loop(BlockType::Empty)); self.e(I::Br(0)); self.e(I::End) }
                7 => { self.e(I::Select); self.e(I::Drop) }
                _ => self.stmt(d.min(1)),
            }
        }
    }
    fn args(&mut self, f: Option<usize>, s: &Sig, d: u32) {
        for (i, t) in s.p.iter().enumerate() {
            if i == 0 && f.is_some_and(|f| self.g.rec[f]) { let v = self.r.below(5) as i32; self.e(I::I32Const(v)) } else { self.expr(*t, d.saturating_sub(1)) }
        }
    }
    fn callee(&mut self, want: Option<Ty>) -> Option<usize> {
        let lo = self.me + 1; // calls go to later functions or imports, so that most programs terminate
        let c: Vec<usize> = (0..self.g.funcs.len()).filter(|f| (*f < self.g.nf || *f >= lo) && want.is_none_or(|t| self.g.sig(*f).r.contains(&t))).collect();
        if c.is_empty() { None } else { Some(*self.r.pick(&c)) }
    }
    fn emit_call(&mut self, want: Option<Ty>, indirect: bool, d: u32) -> Option<Sig> {
        let f = self.callee(want)?;
        let s = self.g.sig(f);
        if indirect {
            let c: Vec<usize> = (0..self.g.tabs.len()).filter(|i| self.g.tabs[*i].el == Ty::FuncRef).collect();
            if c.is_empty() { return None; }
            let t = *self.r.pick(&c);
            // usually store the callee first, so that the call succeeds
            if self.r.pct(75) && self.g.tabs[t].min > 0 {
                let i = self.r.below(self.g.tabs[t].min as usize) as u64;
                let k = |s: &mut Self| s.konst(if s.g.tabs[t].t64 { Val::I64(i) } else { Val::I32(i as u32) });
                k(self); self.e(I::RefFunc(f as u32)); self.e(I::TableSet(t as u32));
                self.args(Some(f), &s, d);
                k(self);
            } else { self.args(Some(f), &s, d); self.tidx(t) }
            let ti = self.g.ty_idx(&s);
            self.e(I::CallIndirect { type_index: ti, table_index: t as u32 });
        } else { self.args(Some(f), &s, d); self.e(I::Call(f as u32)) }
        Some(s)
    }
    fn call_expr(&mut self, t: Ty, d: u32, indirect: bool) -> bool {
        let Some(s) = self.emit_call(Some(t), indirect, d) else { return false };
        let pos = s.r.iter().rposition(|x| *x == t).unwrap();
        for x in s.r[pos + 1..].iter().rev() { if self.r.pct(50) { let l = self.local(*x); self.e(I::LocalSet(l)) } else { self.e(I::Drop) } }
        if pos > 0 { let tmp = self.local(t); self.e(I::LocalSet(tmp)); for x in s.r[..pos].iter().rev() { let l = self.local(*x); if l == tmp { self.e(I::Drop) } else { self.e(I::LocalSet(l)) } } self.e(I::LocalGet(tmp)) }
        true
    }
    fn call_stmt(&mut self, d: u32, indirect: bool) {
        if let Some(s) = self.emit_call(None, indirect, d) { for x in s.r.iter().rev() { if self.r.pct(60) { let l = self.local(*x); self.e(I::LocalSet(l)) } else { self.e(I::Drop) } } }
    }
    fn tail(&mut self, d: u32) -> bool {
        if self.p.tail == 0 { return false }
        let rs = self.labels[0].tys.clone();
        let c: Vec<usize> = (0..self.g.funcs.len()).filter(|f| (*f < self.g.nf || *f > self.me) && self.g.sig(*f).r == rs).collect();
        if c.is_empty() { return false }
        let f = *self.r.pick(&c);
        let s = self.g.sig(f);
        if self.r.pct(25) { let t = self.ty(); self.leaf(t) } // extra operand below, discarded by the tail call
        let tabs: Vec<usize> = (0..self.g.tabs.len()).filter(|i| self.g.tabs[*i].el == Ty::FuncRef && self.g.tabs[*i].min > 0).collect();
        if self.r.pct(40) && !tabs.is_empty() {
            let t = *self.r.pick(&tabs);
            let i = self.r.below(self.g.tabs[t].min as usize) as u64;
            let k = |s: &mut Self| s.konst(if s.g.tabs[t].t64 { Val::I64(i) } else { Val::I32(i as u32) });
            k(self); self.e(I::RefFunc(f as u32)); self.e(I::TableSet(t as u32));
            self.args(Some(f), &s, d);
            k(self);
            let ti = self.g.ty_idx(&s);
            self.e(I::ReturnCallIndirect { type_index: ti, table_index: t as u32 });
        } else { self.args(Some(f), &s, d); self.e(I::ReturnCall(f as u32)) }
        true
    }
    pub fn stmt(&mut self, d: u32) {
        if self.fuel <= 0 { return }
        let p = self.p;
        let w = [8, 3, p.glob, p.mem, p.bulk, p.table, p.ctrl, p.loops, p.call, p.indirect, p.idiom * 3, p.ctrl, 2];
        match self.weight(&w) {
            0 => { let t = self.ty(); self.expr(t, d); let l = self.local(t); self.e(I::LocalSet(l)) }
            1 => { let t = self.ty(); self.expr(t, d); self.e(I::Drop) }
            2 => { let c: Vec<u32> = (0..self.g.globs.len() as u32).filter(|i| self.g.globs[*i as usize].mutable).collect(); if c.is_empty() { return } let x = *self.r.pick(&c); let t = self.g.globs[x as usize].ty; self.expr(t, d); self.e(I::GlobalSet(x)) }
            3 => self.store(d),
            4 => self.bulk(d),
            5 => self.table(d),
            6 => { // block or if statement
                let d1 = d.saturating_sub(1);
                if self.r.pct(40) { self.e(I::Block(BlockType::Empty)); self.labels.push(L { tys: vec![], counter: None }); self.body(&[], d1); self.labels.pop(); self.e(I::End) }
                else {
                    self.cond(d);
                    self.e(I::If(BlockType::Empty));
                    self.labels.push(L { tys: vec![], counter: None });
                    self.body(&[], d1);
                    if self.r.pct(50) { self.e(I::Else); self.body(&[], d1) }
                    self.labels.pop();
                    self.e(I::End)
                }
            }
            7 => { let np = if self.r.pct(25) { 1 } else { 0 }; let ps: Vec<Ty> = (0..np).map(|_| self.ty()).collect(); for x in &ps { self.expr(*x, 1) } self.looped(&ps, &[], d.saturating_sub(1)) }
            8 => self.call_stmt(d, false),
            9 => self.call_stmt(d, true),
            10 => self.idiom(d),
            11 => { // conditional branch, values dropped when not taken
                let l = self.r.below(self.labels.len());
                let lb = self.labels[l].clone();
                if lb.counter.is_some() { return }
                for x in &lb.tys { self.expr(*x, 1) }
                self.cond(d);
                let k = (self.labels.len() - 1 - l) as u32;
                self.e(I::BrIf(k));
                for _ in &lb.tys { self.e(I::Drop) }
            }
            _ => self.e(I::Nop),
        }
    }
    fn small(&mut self, t64: bool) { let v = if self.r.pct(self.p.oob) { rint(self.r) } else { self.r.below(9) as u64 }; if self.r.pct(75) { self.konst(if t64 { Val::I64(v) } else { Val::I32(v as u32) }) } else { let t = if t64 { Ty::I64 } else { Ty::I32 }; self.leaf(t); self.konst(if t64 { Val::I64(7) } else { Val::I32(7) }); self.e(if t64 { I::I64And } else { I::I32And }) } }
    fn bulk(&mut self, d: u32) {
        let Some(a) = self.mem() else { return };
        let m64 = self.g.mems[a].m64;
        match self.r.below(4) {
            0 => { self.addr(a, d); if self.r.pct(60) { let v = rint(self.r) as i32; self.e(I::I32Const(v)) } else { self.expr(Ty::I32, 1) } self.small(m64); self.e(I::MemoryFill(a as u32)) }
            1 | 2 => { let b = self.r.below(self.g.mems.len()); self.addr(a, d); self.addr(b, d); self.small(m64 && self.g.mems[b].m64); self.e(I::MemoryCopy { dst_mem: a as u32, src_mem: b as u32 }) }
            _ => { if self.g.datas.is_empty() { return } let s = self.r.below(self.g.datas.len()); if self.r.pct(15) { self.e(I::DataDrop(s as u32)) } else { self.addr(a, d); let v = self.r.below(self.g.datas[s].len as usize + 2) as i32; self.e(I::I32Const(v)); self.small(false); self.e(I::MemoryInit { mem: a as u32, data_index: s as u32 }) } }
        }
    }
    fn table(&mut self, d: u32) {
        if self.g.tabs.is_empty() { return }
        let a = self.r.below(self.g.tabs.len());
        let t = self.g.tabs[a];
        match self.r.below(6) {
            0 | 1 => { self.tidx(a); self.expr(t.el, d); self.e(I::TableSet(a as u32)) }
            2 => { self.tidx(a); self.expr(t.el, 1); self.small(t.t64); self.e(I::TableFill(a as u32)) }
            3 => { let c: Vec<usize> = (0..self.g.tabs.len()).filter(|i| self.g.tabs[*i].el == t.el).collect(); let b = *self.r.pick(&c); self.tidx(a); self.tidx(b); self.small(t.t64 && self.g.tabs[b].t64); self.e(I::TableCopy { dst_table: a as u32, src_table: b as u32 }) }
            4 => { let c: Vec<usize> = (0..self.g.elems.len()).filter(|i| self.g.elems[*i].el == t.el).collect(); if c.is_empty() { return } let s = *self.r.pick(&c); self.tidx(a); let v = self.r.below(self.g.elems[s].len as usize + 2) as i32; self.e(I::I32Const(v)); self.small(false); self.e(I::TableInit { elem_index: s as u32, table: a as u32 }) }
            _ => { if self.g.elems.is_empty() || self.r.pct(70) { return } let s = self.r.below(self.g.elems.len()); self.e(I::ElemDrop(s as u32)) }
        }
    }
    /// code shapes the rewriter looks for, and near misses
    fn idiom(&mut self, d: u32) {
        let t = *self.r.pick(&[Ty::I32, Ty::I32, Ty::I64, Ty::I64, Ty::F32, Ty::F64, Ty::V128]);
        let near = self.r.pct(12); // a different instruction in the middle
        match self.r.below(24) {
            0..=2 => { // dst = a op b | a op const | const op a
                let (a, b, dst) = (self.any_local(t), self.any_local(t), self.local(t));
                match self.r.below(4) { 0 => { self.e(I::LocalGet(a)); let v = rval(self.r, t); self.konst(v) } 1 => { let v = rval(self.r, t); self.konst(v); self.e(I::LocalGet(a)) } 2 => { self.expr(t, 1); self.e(I::LocalGet(b)) } _ => { self.e(I::LocalGet(a)); self.e(I::LocalGet(b)) } }
                if near { self.e(I::Nop) }
                self.binop(t);
                self.sink(t, dst);
            }
            3 => { let l = self.any_local(t); let dst = self.local(t); self.e(I::LocalGet(l)); self.sink(t, dst) }
            4 => { let v = rval(self.r, t); self.konst(v); let l = self.local(t); self.sink(t, l) }
            5 | 6 => { // compare and branch around a statement
                self.e(I::Block(BlockType::Empty)); self.labels.push(L { tys: vec![], counter: None });
                self.cond(d); self.e(I::BrIf(0)); self.stmt(d.saturating_sub(1)); self.labels.pop(); self.e(I::End)
            }
            7 | 8 => { let t = if self.r.pct(50) { Ty::I32 } else { Ty::I64 }; let a = self.any_local(t); let dst = self.local(t); let k = *self.r.pick(&[8u32, 16, 24, 32, 48, 56, 7]); let k2 = if near { *self.r.pick(&[8u32, 16, 24]) } else { k };
                self.e(I::LocalGet(a)); if self.r.pct(20) { self.binop1(t) }
                if t == Ty::I32 { self.e(I::I32Const(k as i32)); self.e(I::I32Shl); self.e(I::I32Const(k2 as i32)); self.e(if self.r.0 & 8 == 0 { I::I32ShrS } else { I::I32ShrU }) } else { self.e(I::I64Const(k as i64)); self.e(I::I64Shl); self.e(I::I64Const(k2 as i64)); self.e(if self.r.0 & 8 == 0 { I::I64ShrS } else { I::I64ShrU }) }
                self.sink(t, dst) }
            9 | 10 => { // load via an address local into a local
                let Some(mem) = self.mem() else { return };
                let a = self.addr_local(mem);
                let t = *self.r.pick(&[Ty::I32, Ty::I32, Ty::I64, Ty::F32, Ty::F64, Ty::V128]);
                let ma = self.memarg(mem, 0);
                self.e(I::LocalGet(a));
                let i = match t { Ty::I32 => match self.r.below(5) { 0 => I::I32Load8S(ma), 1 => I::I32Load8U(ma), 2 => I::I32Load16S(ma), 3 => I::I32Load16U(ma), _ => I::I32Load(ma) }, Ty::I64 => I::I64Load(ma), Ty::F32 => I::F32Load(ma), Ty::F64 => I::F64Load(ma), _ => I::V128Load(ma) };
                self.e(i);
                let dst = self.local(t); self.sink(t, dst)
            }
            11 | 12 => { // increment memory
                let Some(mem) = self.mem() else { return };
                let a = self.addr_local(mem);
                let b = if near { self.addr_local(mem) } else { a };
                let ma = self.memarg(mem, 0);
                // now and then another memory, at the same offset
                let mb = if self.r.pct(10) { self.memarg(mem, 0) } else if self.r.pct(20) { let m64 = self.g.mems[mem].m64; let o: Vec<usize> = (0..self.g.mems.len()).filter(|i| self.g.mems[*i].m64 == m64).collect(); let mut x = ma; x.memory_index = *self.r.pick(&o) as u32; x } else { ma };
                let k = if self.r.pct(10) { 2 } else { 1 };
                self.e(I::LocalGet(a)); self.e(I::LocalGet(b));
                match self.r.below(2) { 0 => { self.e(I::I32Load(mb)); self.e(I::I32Const(k)); self.e(I::I32Add); self.e(I::I32Store(ma)) } _ => { self.e(I::I64Load(mb)); self.e(I::I64Const(k as i64)); self.e(I::I64Add); self.e(I::I64Store(ma)) } }
            }
            13 | 14 => { // acc += a * b
                let t = *self.r.pick(&[Ty::I32, Ty::I64, Ty::F32, Ty::F64]);
                let acc = self.local(t); let acc2 = if near { self.local(t) } else { acc };
                let first = self.r.pct(30);
                if first { self.e(I::LocalGet(acc2)) }
                self.expr(t, 1); self.expr(t, 1);
                self.e(match t { Ty::I32 => I::I32Mul, Ty::I64 => I::I64Mul, Ty::F32 => I::F32Mul, _ => I::F64Mul });
                if !first { self.e(I::LocalGet(acc2)) }
                self.e(match t { Ty::I32 => I::I32Add, Ty::I64 => I::I64Add, Ty::F32 => I::F32Add, _ => I::F64Add });
                self.sink(t, acc)
            }
            15 | 16 => { // mem[addr] = a + b * c
                let Some(mem) = self.mem() else { return };
                self.addr(mem, 1);
                let t = if self.r.pct(50) { Ty::F32 } else { Ty::F64 };
                self.leaf(t); self.leaf(t); self.leaf(t);
                let ma = self.memarg(mem, 0);
                if t == Ty::F32 { self.e(I::F32Mul); self.e(I::F32Add); self.e(I::F32Store(ma)) } else { self.e(I::F64Mul); self.e(I::F64Add); self.e(I::F64Store(ma)) }
            }
            17 => { let t = if self.r.pct(50) { Ty::I32 } else { Ty::I64 }; for _ in 0..3 { self.expr(t, 1) } let a = if t == Ty::I32 { I::I32Add } else { I::I64Add }; self.e(a.clone()); self.e(a); let l = self.local(t); self.sink(t, l) }
            18 => { // stack op global / const
                let t = if self.r.pct(50) { Ty::I32 } else { Ty::I64 };
                self.expr(t, 1);
                let c: Vec<u32> = (0..self.g.globs.len() as u32).filter(|i| self.g.globs[*i as usize].ty == t).collect();
                if !c.is_empty() && self.r.pct(60) { let x = *self.r.pick(&c); self.e(I::GlobalGet(x)) } else { let v = rval(self.r, t); self.konst(v) }
                self.binop(t); let l = self.local(t); self.sink(t, l)
            }
            19 => { // store local local
                let Some(mem) = self.mem() else { return };
                let a = self.addr_local(mem);
                let t = *self.r.pick(&[Ty::I32, Ty::I64, Ty::F32, Ty::F64, Ty::V128]);
                let v = self.any_local(t);
                let ma = self.memarg(mem, 0);
                self.e(I::LocalGet(a)); self.e(I::LocalGet(v));
                self.e(match t { Ty::I32 => if near { I::I32Store16(ma) } else { I::I32Store(ma) }, Ty::I64 => I::I64Store(ma), Ty::F32 => I::F32Store(ma), Ty::F64 => I::F64Store(ma), _ => I::V128Store(ma) })
            }
            20 => { let Some(mem) = self.mem() else { return }; let m64 = self.g.mems[mem].m64; self.addr(mem, 1); let v = rint(self.r) as i32; self.e(I::I32Const(v)); self.small(m64); self.e(I::MemoryFill(mem as u32)) }
            21 => { // counted while loop
                let t = if self.r.pct(60) { Ty::I32 } else { Ty::I64 };
                let (i, n) = (self.fresh(t), self.fresh(t));
                self.keep[i as usize] = true; self.keep[n as usize] = true;
                let one = |s: &mut Self, v: i64| s.konst(if t == Ty::I32 { Val::I32(v as u32) } else { Val::I64(v as u64) });
                let k = self.r.below(4) as i64;
                one(self, 0); self.e(I::LocalSet(i)); one(self, k); self.e(I::LocalSet(n));
                self.e(I::Block(BlockType::Empty)); self.labels.push(L { tys: vec![], counter: None });
                self.e(I::Loop(BlockType::Empty)); self.labels.push(L { tys: vec![], counter: Some(NEVER) });
                let saved = self.labels.clone();
                self.e(I::LocalGet(i)); if self.r.pct(70) { self.e(I::LocalGet(n)) } else { one(self, k) }
                self.e(if t == Ty::I32 { I::I32GeU } else { I::I64GeU }); self.e(I::BrIf(1));
                // the body may not branch to the loop itself except through its own back edge
                self.labels.last_mut().unwrap().tys = vec![Ty::V128; 9];
                self.stmt(d.saturating_sub(1));
                self.labels = saved;
                self.e(I::LocalGet(i)); one(self, 1); self.e(if t == Ty::I32 { I::I32Add } else { I::I64Add }); self.e(I::LocalSet(i));
                self.e(I::Br(0));
                self.labels.pop(); self.e(I::End); self.labels.pop(); self.e(I::End);
                self.keep[i as usize] = false; self.keep[n as usize] = false;
            }
            22 => { // a value arriving over two paths, then a local write right at the join
                let (a, b, dst) = (self.any_local(t), self.any_local(t), self.local(t));
                let bt = self.bt(&[], &[t]);
                self.e(I::Block(bt)); self.e(I::LocalGet(a));
                self.labels.push(L { tys: vec![t], counter: None });
                self.cond(1); self.labels.pop(); self.e(I::BrIf(0)); self.e(I::Drop); self.e(I::LocalGet(b)); self.e(I::End);
                self.sink(t, dst)
            }
            _ => { // if with a single get in each arm, then an operation
                let (a, b, dst) = (self.any_local(t), self.any_local(t), self.local(t));
                self.cond(1);
                let bt = self.bt(&[], &[t]);
                self.e(I::If(bt)); self.e(I::LocalGet(a)); self.e(I::Else); self.e(I::LocalGet(b)); self.e(I::End);
                if self.r.pct(50) { let c = self.any_local(t); self.e(I::LocalGet(c)); self.binop(t) }
                self.sink(t, dst)
            }
        }
    }
    fn addr_local(&mut self, mem: usize) -> u32 { let m64 = self.g.mems[mem].m64; let t = if m64 { Ty::I64 } else { Ty::I32 }; let a = self.local(t); self.e(I::LocalGet(a)); self.konst(if m64 { Val::I64(31) } else { Val::I32(31) }); self.e(if m64 { I::I64And } else { I::I32And }); self.e(I::LocalSet(a)); a }
    fn sink(&mut self, t: Ty, dst: u32) {
        match self.r.below(6) { 0..=2 => self.e(I::LocalSet(dst)), 3 => { self.e(I::LocalTee(dst)); self.e(I::Drop) } 4 => { self.e(I::LocalTee(dst)); let l = self.local(t); self.e(I::LocalSet(l)) } _ => { self.e(I::LocalSet(dst)); self.e(I::LocalGet(dst)); let l = self.local(t); self.e(I::LocalSet(l)) } }
    }
    fn binop1(&mut self, t: Ty) { let v = rval(self.r, t); self.konst(v); self.binop(t) }
    fn binop(&mut self, t: Ty) {
        let v: Vec<I<'static>> = match t {
            Ty::I32 => vec![I::I32Add, I::I32Sub, I::I32Mul, I::I32And, I::I32Or, I::I32Xor, I::I32Shl, I::I32ShrS, I::I32ShrU, I::I32Rotl, I::I32Rotr],
            Ty::I64 => vec![I::I64Add, I::I64Sub, I::I64Mul, I::I64And, I::I64Or, I::I64Xor, I::I64Shl, I::I64ShrS, I::I64ShrU, I::I64Rotl, I::I64Rotr],
            Ty::F32 => vec![I::F32Add, I::F32Sub, I::F32Mul, I::F32Div, I::F32Min, I::F32Max, I::F32Copysign],
            Ty::F64 => vec![I::F64Add, I::F64Sub, I::F64Mul, I::F64Div, I::F64Min, I::F64Max, I::F64Copysign],
            _ => vec![I::V128And, I::V128AndNot, I::V128Or, I::V128Xor, I::I64x2Add, I::I64x2Mul, I::I64x2Sub, I::I32x4Add],
        };
        let i = self.r.pick(&v).clone();
        self.e(i)
    }
}

// ---------------------------------------------------------------- modules
/// what a generated module may import: (module name, field, type)
pub type Avail = Vec<(String, String, ImpTy2)>;
#[derive(Clone, Debug)]
pub enum ImpTy2 { F(Sig), T(TabTy), M(MemTy), G(GlobTy) }

pub fn module(r: &mut Rng, p: &Prof, avail: &Avail) -> GM {
    let rsig = |r: &mut Rng| { let np = [0, 1, 1, 2, 2, 3, 4, 6][r.below(8)]; let nr = [0, 1, 1, 1, 1, 2, 2, 3][r.below(8)]; Sig { p: (0..np).map(|_| *r.pick(&p.types)).collect(), r: (0..nr).map(|_| *r.pick(&p.types)).collect() } };
    let mut g = GM { types: Rc::new(RefCell::new(vec![])), imports: vec![], funcs: vec![], rec: vec![], nf: 0, tabs: vec![], nt: 0, mems: vec![], nm: 0, globs: vec![], ng: 0, elems: vec![], datas: vec![], start: None, bytes: Rc::new(vec![]) };
    for (mo, n, t) in avail {
        let it = match t {
            ImpTy2::F(s) => { let i = g.ty_idx(s); g.funcs.push(i); g.rec.push(false); ImpTy::F(i) }
            ImpTy2::T(t) => { g.tabs.push(*t); ImpTy::T(*t) }
            ImpTy2::M(t) => { g.mems.push(*t); ImpTy::M(*t) }
            ImpTy2::G(t) => { g.globs.push(*t); ImpTy::G(*t) }
        };
        g.imports.push((mo.clone(), n.clone(), it));
    }
    (g.nf, g.nt, g.nm, g.ng) = (g.funcs.len(), g.tabs.len(), g.mems.len(), g.globs.len());
    let nfun = 1 + r.below(p.funcs);
    for _ in 0..nfun {
        let mut s = rsig(r);
        let rec = r.pct(p.recurse);
        if rec { s.p.insert(0, Ty::I32) }
        let i = g.ty_idx(&s); g.funcs.push(i); g.rec.push(rec);
    }
    if p.mem + p.bulk > 0 { for _ in 0..1 + r.below(2) {
        let page = if r.pct(30) { 1 } else { 65536 };
        let min = if page == 1 { 64 + r.below(100) as u64 } else { 1 };
        let max = if page == 1 { min + r.below(200) as u64 } else { min + r.below(3) as u64 };
        g.mems.push(MemTy { m64: r.pct(p.m64), min, max: Some(max), page });
    } }
    if p.table + p.indirect + p.refs > 0 { for k in 0..1 + r.below(3) {
        let min = 4 + r.below(6) as u64;
        g.tabs.push(TabTy { t64: r.pct(p.m64 / 2), min, max: Some(min + r.below(8) as u64), el: if k == 0 || r.pct(50) { Ty::FuncRef } else { Ty::ExternRef } });
    } }
    for _ in 0..r.below(5) { g.globs.push(GlobTy { ty: *r.pick(&p.types), mutable: r.pct(75) }); }
    build(r, p, g)
}

fn cx(v: Val) -> we::ConstExpr { match v { Val::I32(x) => we::ConstExpr::i32_const(x as i32), Val::I64(x) => we::ConstExpr::i64_const(x as i64), Val::F32(x) => we::ConstExpr::f32_const(we::Ieee32::new(x)), Val::F64(x) => we::ConstExpr::f64_const(we::Ieee64::new(x)), Val::V(v) => we::ConstExpr::v128_const(i128::from_le_bytes(v.0)), Val::FuncRef(_) => we::ConstExpr::ref_null(HeapType::FUNC), Val::ExternRef(_) => we::ConstExpr::ref_null(HeapType::EXTERN) } }
pub fn emem(t: &MemTy) -> we::MemoryType { we::MemoryType { minimum: t.min, maximum: t.max, memory64: t.m64, shared: false, page_size_log2: if t.page == 65536 { None } else { Some(t.page.trailing_zeros()) } } }
pub fn etab(t: &TabTy) -> we::TableType { we::TableType { element_type: if t.el == Ty::FuncRef { RefType::FUNCREF } else { RefType::EXTERNREF }, table64: t.t64, minimum: t.min, maximum: t.max, shared: false } }
pub fn eglob(t: &GlobTy) -> we::GlobalType { we::GlobalType { val_type: ety(t.ty), mutable: t.mutable, shared: false } }

fn build(r: &mut Rng, p: &Prof, mut g: GM) -> GM {
    // segments are declared before bodies, so that bodies can use them
    let mut elem_enc = vec![];
    for _ in 0..r.below(4) { if g.tabs.is_empty() { break }
        let ti = r.below(g.tabs.len());
        let t = g.tabs[ti];
        let n = r.below(4) as u64;
        let mode = r.below(4);
        let off = if r.pct(3) { t.min + 1 } else if n > t.min { 0 } else { r.below((t.min - n) as usize + 1) as u64 };
        let funcs: Vec<u32> = (0..n).map(|_| r.below(g.funcs.len()) as u32).collect();
        let exprs = t.el == Ty::ExternRef || r.pct(30);
        g.elems.push(SegInfo { len: if mode >= 2 { 0 } else { n }, el: t.el });
        elem_enc.push((ti, t, mode, off, funcs, exprs));
    }
    let mut data_enc = vec![];
    for _ in 0..r.below(4) { if g.mems.is_empty() { break }
        let mi = r.below(g.mems.len());
        let t = g.mems[mi];
        let n = r.below(12);
        let passive = r.pct(50);
        let off = if r.pct(3) { t.min * t.page - n as u64 + 1 } else { r.below(40) as u64 };
        let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
        g.datas.push(SegInfo { len: if passive { n as u64 } else { 0 }, el: Ty::I32 });
        data_enc.push((mi, t, passive, off, b));
    }
    let gl0 = g.ng;
    let mut genc = vec![];
    for i in gl0..g.globs.len() {
        let t = g.globs[i].ty;
        let imp: Vec<u32> = (0..g.ng as u32).filter(|k| g.globs[*k as usize].ty == t && !g.globs[*k as usize].mutable).collect();
        let e = if t == Ty::FuncRef && r.pct(60) { we::ConstExpr::ref_func(r.below(g.funcs.len()) as u32) }
            else if !imp.is_empty() && r.pct(40) { we::ConstExpr::global_get(*r.pick(&imp)) }
            else if t == Ty::I32 && r.pct(25) { let (a, b) = (rint(r) as i32, rint(r) as i32); let x = we::ConstExpr::i32_const(a).with_i32_const(b); match r.below(3) { 0 => x.with_i32_add(), 1 => x.with_i32_sub(), _ => x.with_i32_mul() } }
            else if t == Ty::I64 && r.pct(25) { let (a, b) = (rint(r) as i64, rint(r) as i64); let x = we::ConstExpr::i64_const(a).with_i64_const(b); match r.below(3) { 0 => x.with_i64_add(), 1 => x.with_i64_sub(), _ => x.with_i64_mul() } }
            else { cx(rval(r, t)) };
        genc.push(e);
    }
    // bodies
    let mut code = we::CodeSection::new();
    for f in g.nf..g.funcs.len() {
        let s = g.sig(f);
        let mut fu = F { g: &g, r, p, c: vec![], loc: s.p.clone(), np: s.p.len(), keep: vec![false; s.p.len()], labels: vec![L { tys: s.r.clone(), counter: None }], fuel: 160, me: f };
        if g.rec[f] { fu.keep[0] = true }
        if fu.r.pct(p.many_locals) { for _ in 0..fu.r.below(300) { let t = fu.ty(); fu.fresh(t); } }
        for _ in 0..fu.r.below(4) { let t = fu.ty(); fu.fresh(t); }
        if g.rec[f] && fu.r.pct(80) {
            // guarded self call, possibly as a tail call
            fu.e(I::LocalGet(0)); fu.e(I::I32Const(0)); fu.e(I::I32GtS); fu.e(I::If(BlockType::Empty)); fu.labels.push(L { tys: vec![], counter: None });
            if fu.r.pct(40) { fu.stmt(1) }
            fu.e(I::LocalGet(0)); fu.e(I::I32Const(1)); fu.e(I::I32Sub);
            for t in &s.p[1..] { fu.expr(*t, 1) }
            if fu.p.tail > 0 && fu.r.pct(35) { fu.e(I::ReturnCall(f as u32)) } else { fu.e(I::Call(f as u32)); for x in s.r.iter().rev() { if fu.r.pct(60) { let l = fu.local(*x); fu.e(I::LocalSet(l)) } else { fu.e(I::Drop) } } }
            fu.labels.pop(); fu.e(I::End)
        }
        for _ in 0..1 + fu.r.below(p.stmts) { fu.stmt(p.depth) }
        fu.body(&s.r.clone(), p.depth);
        let mut w = we::Function::new_with_locals_types(fu.loc[fu.np..].iter().map(|t| ety(*t)).collect::<Vec<_>>());
        for i in &fu.c { w.instruction(i); }
        w.instruction(&I::End);
        code.function(&w);
    }
    if r.pct(15) { let c: Vec<u32> = (g.nf..g.funcs.len()).filter(|f| g.sig(*f) == Sig::default()).map(|f| f as u32).collect(); if !c.is_empty() { g.start = Some(*r.pick(&c)) } }
    // encode
    let mut md = we::Module::new();
    let mut ts = we::TypeSection::new();
    for s in g.types.borrow().iter() { ts.ty().function(s.p.iter().map(|t| ety(*t)), s.r.iter().map(|t| ety(*t))); }
    md.section(&ts);
    let mut im = we::ImportSection::new();
    for (a, b, t) in &g.imports { let e: we::EntityType = match t { ImpTy::F(i) => we::EntityType::Function(*i), ImpTy::T(t) => we::EntityType::Table(etab(t)), ImpTy::M(t) => we::EntityType::Memory(emem(t)), ImpTy::G(t) => we::EntityType::Global(eglob(t)) }; im.import(a, b, e); }
    md.section(&im);
    let mut fs = we::FunctionSection::new();
    for f in g.nf..g.funcs.len() { fs.function(g.funcs[f]); }
    md.section(&fs);
    let mut tb = we::TableSection::new();
    for t in &g.tabs[g.nt..] { tb.table(etab(t)); }
    md.section(&tb);
    let mut me = we::MemorySection::new();
    for t in &g.mems[g.nm..] { me.memory(emem(t)); }
    md.section(&me);
    let mut gs = we::GlobalSection::new();
    for (k, e) in genc.iter().enumerate() { gs.global(eglob(&g.globs[gl0 + k]), e); }
    md.section(&gs);
    let mut ex = we::ExportSection::new();
    for i in 0..g.funcs.len() { ex.export(&g.export(Kind::F, i), we::ExportKind::Func, i as u32); }
    for i in 0..g.tabs.len() { ex.export(&g.export(Kind::T, i), we::ExportKind::Table, i as u32); }
    for i in 0..g.mems.len() { ex.export(&g.export(Kind::M, i), we::ExportKind::Memory, i as u32); }
    for i in 0..g.globs.len() { ex.export(&g.export(Kind::G, i), we::ExportKind::Global, i as u32); }
    md.section(&ex);
    if let Some(s) = g.start { md.section(&we::StartSection { function_index: s }); }
    let mut es = we::ElementSection::new();
    for (ti, t, mode, off, funcs, exprs) in &elem_enc {
        let o = cx(if t.t64 { Val::I64(*off) } else { Val::I32(*off as u32) });
        let ce: Vec<we::ConstExpr> = funcs.iter().enumerate().map(|(k, f)| if t.el == Ty::ExternRef || k == 1 { cx(Val::default(t.el)) } else { we::ConstExpr::ref_func(*f) }).collect();
        let rt = if t.el == Ty::FuncRef { RefType::FUNCREF } else { RefType::EXTERNREF };
        let el = if *exprs { we::Elements::Expressions(rt, ce.into()) } else { we::Elements::Functions(funcs.clone().into()) };
        match mode { 0 | 1 => { es.passive(el); } 2 => { es.active(Some(*ti as u32), &o, el); } _ => { es.declared(el); } }
    }
    md.section(&es);
    if !data_enc.is_empty() { md.section(&we::DataCountSection { count: data_enc.len() as u32 }); }
    md.section(&code);
    let mut ds = we::DataSection::new();
    for (mi, t, passive, off, b) in &data_enc { if *passive { ds.passive(b.clone()); } else { ds.active(*mi as u32, &cx(if t.m64 { Val::I64(*off) } else { Val::I32(*off as u32) }), b.clone()); } }
    md.section(&ds);
    g.bytes = Rc::new(md.finish());
    g
}

/// import types under which a module's exports may be imported (sometimes a looser, still matching type)
pub fn exports_of(r: &mut Rng, name: &str, g: &GM) -> Avail {
    let mut a = vec![];
    for i in 0..g.funcs.len() { if r.pct(50) { a.push((name.to_string(), g.export(Kind::F, i), ImpTy2::F(g.sig(i)))) } }
    for i in 0..g.tabs.len() { if r.pct(60) { let mut t = g.tabs[i]; if r.pct(30) { t.min = t.min.saturating_sub(1).max(4) } if r.pct(30) { t.max = t.max.map(|x| x + 2) } a.push((name.to_string(), g.export(Kind::T, i), ImpTy2::T(t))) } }
    for i in 0..g.mems.len() { if r.pct(60) { let mut t = g.mems[i]; if r.pct(30) { t.max = t.max.map(|x| if x >= 65536 { x } else { x + 1 }) } a.push((name.to_string(), g.export(Kind::M, i), ImpTy2::M(t))) } }
    for i in 0..g.globs.len() { if r.pct(60) { a.push((name.to_string(), g.export(Kind::G, i), ImpTy2::G(g.globs[i]))) } }
    a
}

pub fn rargs(r: &mut Rng, s: &Sig, rec: bool) -> Vec<Arg> {
    s.p.iter().enumerate().map(|(i, t)| if rec && i == 0 { Arg::V(Val::I32(r.below(8) as u32)) } else if *t == Ty::FuncRef && r.pct(70) { Arg::Seen(r.below(16)) } else { Arg::V(rval(r, *t)) }).collect()
}
pub fn mode(r: &mut Rng, fuel: u32) -> Mode { if r.pct(fuel) { let n = 1 + r.below(4); Mode::Fuel((0..n).map(|_| *r.pick(&[1u32, 2, 3, 10, 100, 127, 128, 129, 256, 300, 1000, 5000])).collect()) } else { Mode::Direct } }

#[derive(Clone)]
/// objs: host-made memories, tables and globals offered as imports; twist: imports declared with a perturbed type; badargs: calls with ill-typed arguments
pub struct ScenOpts { pub modules: usize, pub reenter: u32, pub fuel: u32, pub hostops: u32, pub fail: u32, pub objs: u32, pub twist: u32, pub badargs: u32 }
impl Default for ScenOpts { fn default() -> ScenOpts { ScenOpts { modules: 1, reenter: 0, fuel: 0, hostops: 10, fail: 0, objs: 0, twist: 0, badargs: 0 } } }

/// hosts, then modules each importing hosts and earlier exports, then calls and host operations
pub fn scenario(r: &mut Rng, p: &Prof, o: &ScenOpts) -> Scenario {
    let mut acts = vec![];
    let mut hosts: Vec<Sig> = vec![];
    let mut mods: Vec<GM> = vec![];
    let nh = if r.pct(p.host) { 1 + r.below(3) } else { 0 };
    for k in 0..nh {
        let np = r.below(4); let nr = r.below(3);
        let s = Sig { p: (0..np).map(|_| *r.pick(&p.types)).collect(), r: (0..nr).map(|_| *r.pick(&p.types)).collect() };
        let mut steps = vec![];
        if r.pct(o.reenter) {
            let inst = r.below(o.modules);
            if r.pct(60) { steps.push(Step::Forward { inst, name: format!("f{}", nh + r.below(p.funcs)), swallow: r.pct(60) }) }
            if r.pct(50) { let n = r.below(3); let args = (0..n).map(|_| { let t = *r.pick(&p.types); rval(r, t) }).collect(); steps.push(Step::Call { inst, name: format!("f{}", r.below(nh + p.funcs)), args, swallow: r.pct(60) }) }
            if r.pct(40) { steps.push(Step::MemWrite(inst, "m0".into(), r.below(40), vec![r.next() as u8; 1 + r.below(9)])) }
            if r.pct(30) { steps.push(Step::MemRead(inst, "m0".into(), r.below(40), r.below(30))) }
            if r.pct(20) { steps.push(Step::MemGrow(inst, "m0".into(), r.below(3) as u64)) }
            if r.pct(30) { let t = *r.pick(&p.types); steps.push(Step::GlobalSet(inst, format!("g{}", r.below(4)), rval(r, t))) }
            if r.pct(20) { steps.push(Step::Charge(if r.pct(15) { rint(r) as u32 } else { r.below(500) as u32 })) }
        }
        if r.pct(o.fail) { steps.push(if r.pct(50) { Step::Limit(3) } else { Step::Fail(format!("host: e{k}")) }) }
        let ret = if r.pct(o.fail / 2) { Ret::Bad(r.next() as u32) } else if r.pct(40) { Ret::Args } else { Ret::Det(r.next()) };
        acts.push(Act::NewHost(s.clone(), Beh { id: k as u32, steps, ret }));
        hosts.push(s);
    }
    let mut offers: Avail = vec![];
    let mut offer_ids: Vec<usize> = vec![];
    if r.pct(o.objs) { for _ in 0..1 + r.below(4) {
        let id = acts.len();
        let t = match r.below(3) {
            0 => { let page = if r.pct(40) { 1 } else { 65536 }; let min = if page == 1 { 64 + r.below(64) as u64 } else { 1 + r.below(2) as u64 }; let mut t = MemTy { m64: r.pct(p.m64), min, max: if r.pct(60) { Some(min + r.below(4) as u64) } else { None }, page }; if o.twist > 0 && t.m64 && t.max.is_some() && r.pct(20) { t.max = Some(match r.below(3) { 0 => (1 << 32) / page + 1, 1 => 1 << 40, _ => (1 << 32) / page }) } acts.push(Act::NewMem(t)); ImpTy2::M(t) }
            1 => { let min = 4 + r.below(5) as u64; let el = if r.pct(60) { Ty::FuncRef } else { Ty::ExternRef }; let t = TabTy { t64: r.pct(p.m64 / 2), min, max: if r.pct(60) { Some(min + r.below(4) as u64) } else { None }, el }; let v = rval(r, el); acts.push(Act::NewTable(t, Arg::V(v))); ImpTy2::T(t) }
            _ => { let t = GlobTy { ty: *r.pick(&p.types), mutable: r.pct(60) }; let v = rval(r, t.ty); acts.push(Act::NewGlobal(t, Arg::V(v))); ImpTy2::G(t) }
        };
        offers.push(("h".into(), format!("o{id}"), t));
        offer_ids.push(id);
    } }
    for mi in 0..o.modules {
        let mut av: Avail = vec![];
        let mut defs = vec![];
        let mut links = vec![];
        for (k, s) in hosts.iter().enumerate() { av.push(("h".into(), format!("h{k}"), ImpTy2::F(s.clone()))); defs.push(("h".to_string(), format!("h{k}"), ObjRef::Obj(k))) }
        for (k, g) in mods.iter().enumerate() { if r.pct(70) { let nm = format!("M{k}"); av.extend(exports_of(r, &nm, g)); links.push((nm, k)) } }
        for (k, x) in offers.iter().enumerate() { if r.pct(70) { av.push(x.clone()); defs.push((x.0.clone(), x.1.clone(), ObjRef::Obj(offer_ids[k]))) } }
        if r.pct(o.twist) && !av.is_empty() {
            match r.below(8) {
                0 if !defs.is_empty() => { let i = r.below(defs.len()); defs.remove(i); }
                1 if defs.len() > 1 => { let (i, j) = (r.below(defs.len()), r.below(defs.len())); let x = defs[i].2.clone(); defs[j].2 = x; }
                2 => { let i = r.below(av.len()); av[i].1.push('?') }
                _ => { let i = r.below(av.len()); twist(r, &mut av[i].2) }
            }
        }
        let g = module(r, p, &av);
        acts.push(Act::Inst { module: mi, defs, links, start: r.pct(90) });
        mods.push(g);
    }
    for _ in 0..1 + r.below(p.calls) {
        let i = r.below(o.modules);
        let g = &mods[i];
        if r.pct(o.hostops) { if let Some(a) = hostop(r, i, g) { acts.push(a); } continue }
        let f = if r.pct(85) && g.funcs.len() > g.nf { g.nf + r.below(g.funcs.len() - g.nf) } else { r.below(g.funcs.len()) };
        let mut args = rargs(r, &g.sig(f), g.rec[f]);
        if r.pct(o.badargs) { match r.below(3) { 0 => { args.pop(); } 1 => args.push(Arg::V(Val::I32(1))), _ => if !args.is_empty() { let k = r.below(args.len()); let t = *r.pick(&ALL); args[k] = Arg::V(rval(r, t)) } } }
        acts.push(Act::Call { inst: i, name: if r.pct(o.badargs / 8) { "nope".into() } else { g.export(Kind::F, f) }, args, mode: mode(r, o.fuel) });
    }
    Scenario { modules: mods.iter().map(|g| g.bytes.clone()).collect(), acts }
}
pub fn roff(r: &mut Rng, n: u64) -> usize { match r.below(8) { 0 => 0, 1 => n as usize, 2 => (n as usize).wrapping_sub(r.below(9)), 3 => n as usize + r.below(9), 4 => rint(r) as usize, 5 => usize::MAX - r.below(4), _ => r.below(n as usize + 1) } }
pub fn rlen(r: &mut Rng, n: u64) -> usize { match r.below(8) { 0 => 0, 1 => n as usize, 2 => n as usize + 1, 3 => usize::MAX - r.below(9), 4 => rint(r) as usize, _ => r.below(40) } }
/// destinations that just overlap the source, or just do not
fn near_copy(r: &mut Rng, src: usize, len: usize, n: u64) -> usize { match r.below(8) { 0 => src.wrapping_add(len).wrapping_sub(1), 1 => src.wrapping_add(len), 2 => src.wrapping_add(len).wrapping_sub(r.below(9)), 3 => src.wrapping_sub(len).wrapping_add(r.below(3)), 4 => src.wrapping_add(1 + r.below(9)), 5 => src.wrapping_sub(r.below(9)), _ => roff(r, n) } }
pub fn memop(r: &mut Rng, n: u64) -> MemOp {
    let bytes = |r: &mut Rng| -> Vec<u8> { let k = match r.below(8) { 0 => 0, 1 => 200, 2 => 700, _ => r.below(40) }; (0..k).map(|_| if r.pct(20) { 0 } else { r.next() as u8 }).collect() };
    match r.below(17) { 0 => MemOp::Len, 1 => MemOp::Pages, 2 => MemOp::Read(roff(r, n), r.below(300)), 3 => MemOp::ReadVec(roff(r, n), rlen(r, n)), 4 => MemOp::ReadExact(roff(r, n), rlen(r, n)), 5 | 6 => MemOp::Write(roff(r, n), bytes(r)), 7 => MemOp::WriteSome(roff(r, n), bytes(r)),
        8 => MemOp::Fill(roff(r, n), rlen(r, n), r.next() as u8), 9 | 10 => { let (src, len) = if r.pct(60) { (r.below(200), { let k = if r.pct(50) { 40 } else { 1200 }; r.below(k) }) } else { (roff(r, n), rlen(r, n)) }; MemOp::Copy { src, dst: near_copy(r, src, len, n), len } } 11 => MemOp::Grow(if r.pct(70) { r.below(3) as i64 } else { rint(r) as i64 }), 12 => match r.below(4) { 0 => MemOp::CStr(roff(r, n), r.below(10)), 1 => MemOp::CStrNul(roff(r, n), rlen(r, n)), 2 => MemOp::Str(roff(r, n), rlen(r, n)), _ => MemOp::Js(roff(r, n), rlen(r, n)) },
        13 => MemOp::WriteCStr(roff(r, n), ["", "a", "héllo", "\u{1F600}x"][r.below(4)].into()), 14 => MemOp::CursorRead(roff(r, n) as u64, r.below(100)), 15 => MemOp::CursorWrite(roff(r, n) as u64, bytes(r)), _ => MemOp::Copy { src: r.below(60), dst: r.below(60), len: r.below(60) } }
}
pub fn tabop(r: &mut Rng, t: &TabTy) -> TabOp {
    let n = t.min;
    let a = |r: &mut Rng| if t.el == Ty::FuncRef && r.pct(70) { Arg::Seen(r.below(8)) } else if r.pct(8) { Arg::V(rval(r, Ty::I32)) } else { Arg::V(rval(r, t.el)) };
    match r.below(7) { 0 => TabOp::Size, 1 => TabOp::Get(roff(r, n) as u32), 2 => TabOp::Load(roff(r, n), rlen(r, n)), 3 | 4 => TabOp::Set(roff(r, n) as u32, a(r)), 5 => TabOp::Copy { src: roff(r, n), dst: roff(r, n), len: rlen(r, n) % (n as usize + 3) }, _ => TabOp::Grow(if r.pct(80) { r.below(3) as i32 } else { rint(r) as i32 }, a(r)) }
}
pub fn hostop(r: &mut Rng, i: usize, g: &GM) -> Option<Act> {
    Some(match r.below(4) {
        0 if !g.mems.is_empty() => { let k = r.below(g.mems.len()); Act::Mem(ObjRef::Exp(i, g.export(Kind::M, k)), memop(r, g.mems[k].min * g.mems[k].page)) }
        1 if !g.tabs.is_empty() => { let k = r.below(g.tabs.len()); let t = g.tabs[k]; Act::Tab(ObjRef::Exp(i, g.export(Kind::T, k)), tabop(r, &t)) }
        2 if !g.globs.is_empty() => { let k = r.below(g.globs.len()); Act::GlobGet(ObjRef::Exp(i, g.export(Kind::G, k))) }
        3 if !g.globs.is_empty() => { let k = r.below(g.globs.len()); let t = if r.pct(90) { g.globs[k].ty } else { Ty::I32 }; Act::GlobSet(ObjRef::Exp(i, g.export(Kind::G, k)), if t == Ty::FuncRef { Arg::Seen(r.below(8)) } else { Arg::V(rbits(r, t)) }) }
        _ => return None,
    })
}

pub fn twist(r: &mut Rng, t: &mut ImpTy2) {
    match t {
        ImpTy2::F(s) => match r.below(4) { 0 => { s.p.pop(); } 1 => { let t = *r.pick(&ALL); s.r.push(t) } 2 => s.p.reverse(), _ => { let n = s.p.len(); if n > 0 { let k = r.below(n); s.p[k] = *r.pick(&ALL) } } },
        ImpTy2::T(t) => match r.below(5) { 0 => t.min += 1 + r.below(3) as u64, 1 => t.max = None, 2 => t.max = Some(t.min + r.below(8) as u64), 3 => t.el = if t.el == Ty::FuncRef { Ty::ExternRef } else { Ty::FuncRef }, _ => t.t64 = !t.t64 },
        ImpTy2::M(t) => match r.below(6) { 0 => t.min += 1 + r.below(2) as u64, 1 => t.max = None, 5 => t.max = Some(if t.page == 1 { u32::MAX as u64 } else { 65536 }), 2 => t.max = Some(t.min + r.below(5) as u64), 3 => { t.page = if t.page == 1 { 65536 } else { 1 }; if t.page == 1 { t.min = 64; t.max = t.max.map(|_| 200) } else { t.min = 1; t.max = t.max.map(|_| 3) } } _ => t.m64 = !t.m64 },
        ImpTy2::G(t) => if r.pct(50) { t.mutable = !t.mutable } else { t.ty = *r.pick(&ALL) },
    }
    if let ImpTy2::T(t) = t { if let Some(x) = &mut t.max { *x = (*x).max(t.min) } }
    if let ImpTy2::M(t) = t { let cap = if t.m64 { u64::MAX } else if t.page == 1 { u32::MAX as u64 } else { 65536 }; if let Some(x) = &mut t.max { *x = (*x).max(t.min).min(cap) } }
}
