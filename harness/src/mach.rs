#[cfg(not(kani))] use crate::kani;
use alloc::sync::Arc;
pub use spec::{F32, F64, Tr, V128, Lane};
pub use tinywasm::engine::Config;
pub use tinywasm::types::*;
pub use tinywasm::verif::executor::{self as x, Out, Regs};
pub use tinywasm::{Engine, ModuleInstance, StackConfig, Store};

/// A machine over the real `Store`; the function under execution lives in the harness's own memory, because
/// heap allocations behind `Arc` make CBMC slow; its contents are the same structs.
#[repr(C)]
pub struct AI<T> { s: usize, w: usize, pub d: T }
pub fn ai<T>(d: T) -> AI<T> { AI { s: 10, w: 10, d } }
pub fn arc<T>(a: &AI<T>) -> Arc<T> { unsafe { Arc::from_raw(&a.d) } }
pub fn slice_box<T>(a: &mut [T]) -> Box<[T]> { unsafe { Box::from_raw(a as *mut [T]) } }

pub fn store(cap: usize, frames: usize) -> Store { store_with(cap, frames, false) }
pub fn store_with(cap: usize, frames: usize, trap_on_oom: bool) -> Store {
    let mut c = Config::default();
    c.value_stack_32 = StackConfig::fixed(cap);
    c.value_stack_64 = StackConfig::fixed(cap);
    c.value_stack_128 = StackConfig::fixed(cap);
    c.call_stack = StackConfig::fixed(frames);
    c.trap_on_oom = trap_on_oom;
    Store::new(Engine::new(c))
}
pub struct Owned;
impl tinywasm::verif::instance::RcOf for Owned { fn rc<T>(v: &T) -> alloc::rc::Rc<T> { unsafe { alloc::rc::Rc::from_raw(v) } } }
impl vst::Own for Owned {
    fn vec<A, T>(a: &mut [A]) -> Vec<T> { let n = a.len(); <Owned as vcs::OwnLen>::vec_len(a, n) }
    fn any<T: Copy>(v: T, len: usize) -> Vec<T> {
        let mut d: Vec<T> = Vec::with_capacity(len);
        #[cfg(not(kani))] d.resize(len, v);
        #[cfg(kani)] unsafe { d.set_len(len) }
        d
    }
}
impl vcs::OwnLen for Owned { fn vec_len<A, T>(a: &mut [A], len: usize) -> Vec<T> { assert!(size_of::<A>() == size_of::<T>()); unsafe { Vec::from_raw_parts(a.as_mut_ptr() as *mut T, len, a.len()) } } }
pub use tinywasm::verif::{call_stack as vcs, instance as vin, store as vst};
pub const FUNCS: usize = 0; pub const TABLES: usize = 1; pub const MEMS: usize = 2; pub const GLOBALS: usize = 3; pub const ELEMS: usize = 4; pub const DATAS: usize = 5;
/// function, table, ... i of the module is number `addrs[..][i]` of the store
pub struct M { pub s: Store, pub addrs: [[u32; 2]; 6], pub mems: [vst::Mem; 2], pub tabs: [vst::Tab; 2], pub elems: [vst::Elem; 2], pub datas: [vst::Dat; 2], pub globs: [vst::Glob; 2], pub ty: AI<FuncType>, pub r: Regs }
static mut S32: [u32; 8] = [0; 8]; static mut S64: [u64; 8] = [0; 8]; static mut S128: [[u8; 16]; 8] = [[0; 16]; 8];
pub fn counts(a: u16, b: u16, c: u16) -> ValueCounts { ValueCounts { c32: a, c64: b, c128: c } }
fn no_tab() -> vst::Tab { vst::Tab::new::<Owned>(TableType::new(WasmType::RefFunc, 0, None), 0) }
fn no_glob() -> vst::Glob { vst::Glob::new(GlobalType::new(WasmType::I32, false), vst::Val::V32(0)) }
impl M {
    pub fn new(cap: usize) -> M { M::with(cap, false) }
    pub fn with(cap: usize, trap_on_oom: bool) -> M { let s = store_with(cap, 4, trap_on_oom); M { s, addrs: [[1, 0]; 6], mems: [crate::ghost::no_mem(), crate::ghost::no_mem()], tabs: [no_tab(), no_tab()], elems: [vst::Elem::new::<Owned>(None), vst::Elem::new::<Owned>(None)], datas: [vst::Dat::new::<Owned>(None), vst::Dat::new::<Owned>(None)], globs: [no_glob(), no_glob()], ty: ai(FuncType::default()), r: Regs::new(counts(0, 0, 0)) } }
    /// the (empty) value stack is the harness's own array of eight cells per class: constant cells stay constants
    pub fn own_stack(&mut self) { tinywasm::verif::value_stack::own::<Owned>(&mut self.s, unsafe { &mut *(&raw mut S32) }, unsafe { &mut *(&raw mut S64) }, unsafe { &mut *(&raw mut S128) }, [0; 3], [8; 3], false) }
    /// execute `i` (the instruction at ip 0 of a one-instruction function) from the registers in self.r
    pub fn exec<G: x::Group>(&mut self, i: Instruction) -> Out { self.exec_fn::<G>(i, |_| ()) }
    pub fn exec_data<G: x::Group>(&mut self, i: Instruction, v128: &mut [[u8; 16]]) -> Out { self.exec_fn::<G>(i, |f| f.data.v128_constants = slice_box(v128)) }
    pub fn exec_fn<G: x::Group>(&mut self, i: Instruction, with: impl FnOnce(&mut WasmFunction)) -> Out {
        let mut ins = [i];
        let mut f = ai(WasmFunction { instructions: slice_box(&mut ins), data: Default::default(), locals: Default::default(), params: Default::default(), results: Default::default(), ty: arc(&self.ty) });
        with(&mut f.d);
        self.install();
        let mut a = self.addrs; let [a0, a1, a2, a3, a4, a5] = &mut a;
        let inst = vin::inst(&self.s, 0, Arc::new([]), [slice_box(a0), slice_box(a1), slice_box(a2), slice_box(a3), slice_box(a4), slice_box(a5)]);
        let m = vin::of::<Owned>(&inst);
        let (o, _) = x::step::<G, false>(&mut self.s, arc(&f), m, &mut self.r);
        core::mem::forget(f); core::mem::forget(inst);
        o
    }
    pub fn install(&mut self) {
        vst::own_mems::<Owned>(&mut self.s, &mut self.mems);
        vst::own_tabs::<Owned>(&mut self.s, &mut self.tabs);
        vst::own_elems::<Owned>(&mut self.s, &mut self.elems);
        vst::own_datas::<Owned>(&mut self.s, &mut self.datas);
        vst::own_globs::<Owned>(&mut self.s, &mut self.globs);
    }
    pub fn clear(&mut self) { x::clear(&mut self.s); self.r = Regs::new(counts(0, 0, 0)); }
    pub fn done(self) { core::mem::forget(self); }
}
/// (arrays are drawn as one integer, so that a counterexample is a list of integers)
pub fn any128() -> [u8; 16] { kani::any::<u128>().to_le_bytes() }
pub trait Opd: Lane { fn any() -> Self; fn push(self, m: &mut M); const CLASS: usize; fn at(m: &M, i: usize) -> Self; }
impl Opd for u32 { fn any() -> Self { kani::any() } fn push(self, m: &mut M) { x::push32(&mut m.s, self) } const CLASS: usize = 0; fn at(m: &M, i: usize) -> Self { x::get32(&m.s, i) } }
impl Opd for u64 { fn any() -> Self { kani::any() } fn push(self, m: &mut M) { x::push64(&mut m.s, self) } const CLASS: usize = 1; fn at(m: &M, i: usize) -> Self { x::get64(&m.s, i) } }
impl Opd for F32 { fn any() -> Self { F32(kani::any()) } fn push(self, m: &mut M) { x::push32(&mut m.s, self.0) } const CLASS: usize = 0; fn at(m: &M, i: usize) -> Self { F32(x::get32(&m.s, i)) } }
impl Opd for F64 { fn any() -> Self { F64(kani::any()) } fn push(self, m: &mut M) { x::push64(&mut m.s, self.0) } const CLASS: usize = 1; fn at(m: &M, i: usize) -> Self { F64(x::get64(&m.s, i)) } }
impl Opd for V128 { fn any() -> Self { V128(any128()) } fn push(self, m: &mut M) { x::push128(&mut m.s, self.0) } const CLASS: usize = 2; fn at(m: &M, i: usize) -> Self { V128(x::get128(&m.s, i)) } }
/// A result list: its stack class counts, and whether the stack tops (above `base`) hold an allowed result.
pub trait Res { fn n(c: usize) -> usize; fn ok(self, m: &M, base: [usize; 3]) -> bool; }
macro_rules! res1 { ($($t:ty)*) => { $( impl Res for $t { fn n(c: usize) -> usize { (c == <$t as Opd>::CLASS) as usize } fn ok(self, m: &M, base: [usize; 3]) -> bool { self.allows_any_nan(<$t as Opd>::at(m, base[<$t as Opd>::CLASS])) } } )* } }
res1!(u32 u64 F32 F64 V128);
impl Res for (u64, u64) { fn n(c: usize) -> usize { if c == 1 { 2 } else { 0 } } fn ok(self, m: &M, b: [usize; 3]) -> bool { x::get64(&m.s, b[1]) == self.0 && x::get64(&m.s, b[1] + 1) == self.1 } }
pub fn trap_of(t: Tr) -> u8 { match t { Tr::DivZero => x::T_DIV0, Tr::Overflow => x::T_INTOVF, Tr::BadConv => x::T_BADCONV } }
/// sentinels below the operands: an instruction must not touch them
pub struct Sent(u32, u64, [u8; 16]);
impl Sent {
    pub fn put(m: &mut M) -> Sent { m.own_stack(); let s = Sent(kani::any(), kani::any(), any128()); x::push32(&mut m.s, s.0); x::push64(&mut m.s, s.1); x::push128(&mut m.s, s.2); s }
    pub fn intact(&self, m: &M) -> bool { x::get32(&m.s, 0) == self.0 && x::get64(&m.s, 0) == self.1 && x::get128(&m.s, 0) == self.2 }
}
