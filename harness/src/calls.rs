//! C09, C12: calls, tail calls and returns between functions of one or two instances, and the stack limits.
use crate::mach::*;
use crate::frame::*;
use crate::tables::{kind, opd};
use vcs::{Fr, Frame};
use Instruction as I;
use alloc::sync::Arc;
#[cfg(not(kani))] use crate::kani;
/// functions 0 and 1 of the store belong to instance 0, function 2 to instance 1; function 0 is executing
pub const DEPTH: usize = 2;
pub struct World { ins: I, p: [ValueCounts; 3], l: [ValueCounts; 3], r: ValueCounts, pub heap: Option<usize>, pub depth: usize, pub wf: usize, wframe: Frame, sig: [[WasmType; 2]; 2], np: [usize; 2], op: usize, now: usize, saved: Frame, seen: Frame }
fn any_frame() -> Frame { Frame { ip: kani::any::<u32>() as usize, func_addr: kani::any(), base: [kani::any(), kani::any(), kani::any()], off: counts(kani::any(), kani::any(), kani::any()) } }
fn z() -> ValueCounts { counts(0, 0, 0) }
fn cts(p: [usize; 3]) -> ValueCounts { counts(p[0] as u16, p[1] as u16, p[2] as u16) }
impl World {
    /// a call stack of two frames; four is the limit
    pub fn new(i: Instruction) -> World {
        World { ins: i, p: [z(); 3], l: [z(); 3], r: z(), heap: None, depth: DEPTH, wf: kani::any::<u8>() as usize, wframe: any_frame(), sig: [[WasmType::I32; 2]; 2], np: [1; 2], op: 0, now: 9, saved: Frame::default(), seen: Frame::default() }
    }
    pub fn shape(&mut self, i: usize, p: [usize; 3], l: [usize; 3]) { self.p[i] = cts(p); self.l[i] = cts(l) }
    pub fn run<G: x::Group>(&mut self, b: &mut Big) -> Out {
        let ty = ai(FuncType::new(&self.sig[0][..self.np[0]], &self.sig[0][self.np[0]..])); let want = ai(FuncType::new(&self.sig[1][..self.np[1]], &self.sig[1][self.np[1]..]));
        let d = Frame::default();
        let (mut r0, mut r1, mut r2, mut r3) = (d, d, d, d);
        if self.wf < self.depth { match self.wf { 0 => r0 = self.wframe, 1 => r1 = self.wframe, 2 => r2 = self.wframe, _ => r3 = self.wframe } }
        let mut fr = [Fr::new(r0), Fr::new(r1), Fr::new(r2), Fr::new(r3)];
        let mut ins = [self.ins];
        let f0 = ai(WasmFunction { instructions: slice_box(&mut ins), data: Default::default(), locals: self.l[0], params: self.p[0], results: self.r, ty: arc(&ty) });
        let f1 = ai(WasmFunction { instructions: Default::default(), data: Default::default(), locals: self.l[1], params: self.p[1], results: z(), ty: arc(&ty) });
        let f2 = ai(WasmFunction { instructions: Default::default(), data: Default::default(), locals: self.l[2], params: self.p[2], results: z(), ty: arc(&ty) });
        let mut funs = [vst::Fun::wasm(arc(&f0), 0), vst::Fun::wasm(arc(&f1), 0), vst::Fun::wasm(arc(&f2), 1)];
        b.m.install();
        vst::own_funs::<Owned>(&mut b.m.s, &mut funs);
        match self.heap { Some(max) => vcs::heap_frames(&mut b.m.s, self.depth, self.depth, max), None => vcs::own_frames::<Owned>(&mut b.m.s, &mut fr, self.depth, 4, false) }
        // the module's function i is number i + 1 (mod 3) of the store
        let mut a = b.m.addrs; let [_, a1, a2, a3, a4, a5] = &mut a; let mut fa = [1u32, 2, 0];
        let ts = ai([arc(&want), arc(&want)]); let types: Arc<[Arc<FuncType>]> = arc(&ts);
        let inst = vin::inst(&b.m.s, 0, types, [slice_box(&mut fa), slice_box(a1), slice_box(a2), slice_box(a3), slice_box(a4), slice_box(a5)]);
        let inst1 = vin::inst(&b.m.s, 1, Arc::new([]), [Default::default(), Default::default(), Default::default(), Default::default(), Default::default(), Default::default()]);
        let mut mods = [vin::of::<Owned>(&inst), vin::of::<Owned>(&inst1)];
        vst::own_modules::<Owned>(&mut b.m.s, &mut mods);
        let (o, end) = x::step::<G, false>(&mut b.m.s, arc(&f0), vin::of::<Owned>(&inst), &mut b.m.r);
        self.now = if end == &f0.d as *const _ { 0 } else if end == &f1.d as *const _ { 1 } else if end == &f2.d as *const _ { 2 } else { 9 };
        let n = vcs::depth(&b.m.s);
        if self.wf < n { self.seen = vcs::frame(&b.m.s, self.wf) }
        if n == self.depth + 1 { self.saved = vcs::frame(&b.m.s, self.depth) }
        core::mem::forget((inst, inst1, mods, funs)); core::mem::forget((f0, f1, f2, ty, want, ts));
        o
    }
    /// the executing function is number `i`
    fn now(&self, b: &Big, i: usize) { assert!(b.m.r.func_addr == i as u32 && self.now == i && b.m.r.module == (i == 2) as u32, "the called function executes, in its own instance") }
    fn frames(&self, b: &Big, depth: usize) { assert!(vcs::depth(&b.m.s) == depth, "call depth"); assert!(self.wf >= self.depth || self.wf >= depth || self.seen == self.wframe, "outer frames are untouched"); }
}
fn one(c: usize, v: usize, o: usize) -> [usize; 3] { let mut a = [o; 3]; a[c] = v; a }
#[derive(Clone, Copy, PartialEq)] pub enum How { Call, Tail }
/// function `g` is called with any number of 32-bit arguments (two of the wider classes) and has up to `extra` further locals of it
pub fn call<G: x::Group>(i: I, how: How, g: usize, c: usize, extra: u8) { call_with::<G>(i, how, g, c, extra, (c == 0) as u8, |_, _| ()) }
/// as `call`, on a 32-bit stack of any depth and size
pub fn deep<G: x::Group>(i: I, how: How, g: usize, extra: u8) { call_with::<G>(i, how, g, 0, extra, if how == How::Tail { 3 } else { 2 }, |_, _| ()) }
/// the call stack is full
pub fn full<G: x::Group>(i: I, g: usize, c: usize) { call_with::<G>(i, How::Call, g, c, 1, (c == 0) as u8, |_, w| w.depth = 4) }
pub fn call_with<G: x::Group>(i: I, how: How, g: usize, c: usize, extra: u8, any: u8, with: impl FnOnce(&mut Big, &mut World)) {
    let mut b = match any { 2 | 3 => Big::new(c), 1 => Big::small(c), _ => Big::five(c) }; let mut w = World::new(i);
    with(&mut b, &mut w);
    let n = b.len; // without the operand of an indirect call
    let (p, k) = if any == 1 || any == 2 { let (p, k) = (if any == 2 { kani::any::<u16>() as usize } else { kani::any::<u8>() as usize }, kani::any::<u8>()); kani::assume(p + extra as usize <= 65535); kani::assume(p <= n[c] && k <= extra); (p, k) } else { (2, extra) }; let l = p + k as usize;
    w.shape(g, one(c, p, 1), one(c, l, 2));
    b.m.r.func_addr = 0; b.m.r.ip = 0;
    let (base, off) = (b.m.r.base, b.m.r.off);
    // a tail call's arguments lie above its frame's locals
    if how == How::Tail { kani::assume(base[c] as usize <= n[c] - p) }
    let start = if how == How::Tail { [base[0] as usize, base[1] as usize, base[2] as usize] } else { let mut a = [n[0] - 1, n[1] - 1, n[2] - 1]; a[c] = n[c] - p; a };
    let j = if any == 2 { kani::any::<u16>() as usize } else { kani::any::<u8>() as usize }; let ai_ = n[c] - p + j; let mut v = 0; if j < p { b.any_at(c, ai_); v = b.val(c, ai_) }
    b.seal();
    let pre = (b.val(0, b.w[0]), b.val(1, b.w[1]), b.val(2, b.w[2]));
    // the index of an indirect call
    match w.op { 1 => vs::set32(&mut b.m.s, b.len[0], 1), 2 => vs::set64(&mut b.m.s, b.len[1], 1), _ => () }
    let caps = vs::caps(&b.m.s);
    let out = w.run::<G>(&mut b);
    let end = start[c] + l;
    if end > caps[c] || (how == How::Call && w.depth == 4) { assert!(out == Out::Trap(x::T_CSTACK), "exceeding a stack limit traps"); w.frames(&b, vcs::depth(&b.m.s)); return b.m.done() }
    assert!(out == Out::Next, "the call is made");
    w.now(&b, g);
    let r = b.m.r;
    assert!(r.ip == 0 && r.base == [start[0] as u32, start[1] as u32, start[2] as u32] && r.off == w.l[g], "the callee's frame");
    let len = x::lens(&b.m.s); let mut o = 0;
    while o < 3 { assert!(len[o] == start[o] + if o == c { l } else { 2 }, "the callee's locals end the stack"); if o != c && start[o] + 1 >= n[o] { assert!(b.val(o, start[o] + 1) == 0, "declared locals are zero") } o += 1 }
    if j < p { assert!(b.val(c, start[c] + j) == v, "the arguments, in order") }
    let q = if any == 2 { kani::any::<u16>() as usize } else { kani::any::<u8>() as usize }; if q >= p && q < l { assert!(b.val(c, start[c] + q) == 0, "declared locals are zero") }
    if b.w[c] < start[c] { assert!(b.val(c, b.w[c]) == [pre.0, pre.1, pre.2][c], "the caller's other values are untouched") }
    if how == How::Call {
        w.frames(&b, w.depth + 1);
        assert!(w.saved == Frame { ip: 1, func_addr: 0, base, off }, "the caller resumes after the call");
    } else { w.frames(&b, w.depth) }
    b.m.done()
}
fn any_type() -> WasmType { match kani::any::<u8>() { 0 => WasmType::I32, 1 => WasmType::I64, 2 => WasmType::F32, 3 => WasmType::F64, 4 => WasmType::V128, 5 => WasmType::RefFunc, _ => WasmType::RefExtern } }
/// table 1 of the module, of any size, and an index into it
fn table(b: &mut Big, is64: bool, v: Option<u32>) -> (u64, u64) {
    let l: u64 = kani::any(); kani::assume(l <= 10_000_000);
    let mut t = vst::Tab::new::<Owned>(kind(is64, true, None), l as usize);
    let i = if is64 { b.len[1] -= 1; let i = b.len[1]; b.set64(i); b.r64(i) } else { kani::assume(b.len[0] > 1); b.len[0] -= 1; let i = b.len[0]; b.set32(i); b.r32(i) as u64 };
    if i < l { t.set(i as usize, v) }
    core::mem::forget(core::mem::replace(&mut b.m.tabs[0], t));
    (i, l)
}
/// the slot holds function `g` of the expected type
pub fn indirect<G: x::Group>(i: I, how: How, g: usize, c: usize, is64: bool) { call_with::<G>(i, how, g, c, 2, 0, |b, w| {
    let mut t = vst::Tab::new::<Owned>(kind(is64, true, None), 3); t.set(1, Some(g as u32));
    let c = is64 as usize; b.len[c] -= 1; w.op = 1 + c;
    core::mem::forget(core::mem::replace(&mut b.m.tabs[0], t)); }) }
/// any index, any slot, any types
fn indirect_traps<G: x::Group>(i: I, g: usize, is64: bool, np: [usize; 2]) {
    let mut b = Big::small(0); let mut w = World::new(i);
    let null = kani::any();
    let (i, l) = table(&mut b, is64, if null { None } else { Some(g as u32) });
    for t in 0..2 { for k in 0..2 { w.sig[t][k] = any_type() } w.np[t] = np[t] }
    kani::assume(b.m.r.base[0] as usize <= b.len[0]); b.m.r.func_addr = 0;
    let same = np[0] == np[1] && w.sig[0] == w.sig[1];
    let out = w.run::<G>(&mut b);
    if i >= l { assert!(out == Out::Trap(x::T_UNDEFEL), "an index outside the table traps") }
    else if null { assert!(out == Out::Trap(x::T_UNINITEL), "a null slot traps") }
    else if !same { assert!(out == Out::Trap(x::T_INDIRTY), "a function of another type traps") }
    else { assert!(out == Out::Next, "a function of the type is called"); w.now(&b, g) }
    b.m.done()
}
/// a return to the frame of function `g`
fn ret<G: x::Group>(i: I, g: usize, keep: [usize; 3]) { ret_on::<G>(Big::small(0), i, g, keep) }
fn ret_on<G: x::Group>(mut b: Big, i: I, g: usize, keep: [usize; 3]) {
    let mut w = World::new(i);
    b.m.r.call_base = kani::any::<u8>() as u32; kani::assume(b.m.r.call_base as usize <= w.depth);
    b.m.r.func_addr = 0; let base = b.m.r.base;
    w.r = cts(keep);
    kani::assume(base[0] as usize + keep[0] <= b.len[0]);
    w.wframe.func_addr = g as u32; if w.depth > 0 { w.wf = w.depth - 1 }
    b.seal();
    let kept = if keep[0] > 0 { b.r32(b.len[0] - 1) } else { 0 };
    let out = w.run::<G>(&mut b);
    let n = x::lens(&b.m.s);
    for c in 0..3 { assert!(n[c] == base[c] as usize + keep[c], "the results replace the frame") }
    if keep[0] > 0 { assert!(b.r32(n[0] - 1) == kept, "the result") }
    if b.w[0] < base[0] as usize { assert!(b.r32(b.w[0]) == b.pre.0, "the caller's values are untouched") }
    if w.depth == b.m.r.call_base as usize { assert!(out == Out::Done && vcs::depth(&b.m.s) == w.depth, "the outermost function is done") }
    else {
        assert!(out == Out::Next && vcs::depth(&b.m.s) == w.depth - 1, "control goes back to the caller");
        w.now(&b, g);
        let r = b.m.r; let f = w.wframe;
        assert!(r.ip == f.ip && r.base == f.base && r.off == f.off, "the caller's frame");
    }
    b.m.done()
}
group!(c09_call: Call CallSelf);
group!(c09_tail: ReturnCall ReturnCallSelf);
group!(c09_ind: CallIndirect);
group!(c09_rind: ReturnCallIndirect);
group!(c09_return: Return ReturnVoid Return32);
// the module's function 0 is the store's function 1, function 1 is function 2, function 2 is function 0
entries! { C09 :
    c09_Call_deep => deep::<x::c09_call>(I::Call(0), How::Call, 1, 3); // @cost=150 loops=extend_with:5
    c09_Call_other_deep => deep::<x::c09_call>(I::Call(1), How::Call, 2, 3); // @cost=150 loops=extend_with:5
    c09_CallSelf_deep => deep::<x::c09_call>(I::CallSelf, How::Call, 0, 3); // @cost=150 loops=extend_with:5
    c09_Call_32 => call::<x::c09_call>(I::Call(0), How::Call, 1, 0, 3); // @bounded=1 loops=extend_with:5
    c09_Call_64 => call::<x::c09_call>(I::Call(1), How::Call, 2, 1, 3); // @bounded=1 loops=extend_with:5
    c09_Call_128 => call::<x::c09_call>(I::Call(1), How::Call, 2, 2, 2); // @bounded=1 loops=extend_with:5
    c09_Call_rec => call::<x::c09_call>(I::Call(2), How::Call, 0, 0, 3); // @bounded=1 loops=extend_with:5
    c09_CallSelf_32 => call::<x::c09_call>(I::CallSelf, How::Call, 0, 0, 3); // @bounded=1 loops=extend_with:5
    c09_CallSelf_64 => call::<x::c09_call>(I::CallSelf, How::Call, 0, 1, 3); // @bounded=1 loops=extend_with:5
    c09_CallSelf_128 => call::<x::c09_call>(I::CallSelf, How::Call, 0, 2, 2); // @bounded=1 loops=extend_with:5
    c09_Call_full => full::<x::c09_call>(I::Call(0), 1, 0); // @bounded=1 loops=extend_with:5
    c09_CallSelf_full => full::<x::c09_call>(I::CallSelf, 0, 0); // @bounded=1 loops=extend_with:5
    c09_ReturnCall_32 => call::<x::c09_tail>(I::ReturnCall(1), How::Tail, 2, 0, 3); // @bounded=1 loops=extend_with:5
    c09_ReturnCall_64 => call::<x::c09_tail>(I::ReturnCall(0), How::Tail, 1, 1, 3); // @bounded=1 loops=extend_with:5
    c09_ReturnCall_128 => call::<x::c09_tail>(I::ReturnCall(1), How::Tail, 2, 2, 2); // @bounded=1 loops=extend_with:5
    c09_ReturnCallSelf_32 => call::<x::c09_tail>(I::ReturnCallSelf, How::Tail, 0, 0, 3); // @bounded=1 loops=extend_with:5
    c09_ReturnCallSelf_64 => call::<x::c09_tail>(I::ReturnCallSelf, How::Tail, 0, 1, 3); // @bounded=1 loops=extend_with:5
    c09_ReturnCallSelf_128 => call::<x::c09_tail>(I::ReturnCallSelf, How::Tail, 0, 2, 2); // @bounded=1 loops=extend_with:5
    c09_CallIndirect_32 => indirect::<x::c09_ind>(I::CallIndirect(1, 1), How::Call, 2, 0, false); // @bounded=1 loops=extend_with:5,rfold:1,revswap:1,swap_nonoverlapping:2
    c09_CallIndirect_64 => indirect::<x::c09_ind>(I::CallIndirect(1, 1), How::Call, 1, 0, true); // @bounded=1 loops=extend_with:5,rfold:1,revswap:1,swap_nonoverlapping:2
    c09_ReturnCallIndirect_32 => indirect::<x::c09_rind>(I::ReturnCallIndirect(1, 1), How::Tail, 1, 0, false); // @bounded=1 loops=extend_with:5,rfold:1,revswap:1,swap_nonoverlapping:2
    c09_ReturnCallIndirect_64 => indirect::<x::c09_rind>(I::ReturnCallIndirect(1, 1), How::Tail, 2, 0, true); // @bounded=1 loops=extend_with:5,rfold:1,revswap:1,swap_nonoverlapping:2
    c09_CallIndirect_traps => indirect_traps::<x::c09_ind>(I::CallIndirect(1, 1), 2, false, [1, 1]); // @bounded=1 loops=extend_with:5,rfold:1,revswap:1,swap_nonoverlapping:2
    c09_CallIndirect_traps64 => indirect_traps::<x::c09_ind>(I::CallIndirect(1, 1), 1, true, [1, 2]); // @bounded=1 loops=extend_with:5,rfold:1,revswap:1,swap_nonoverlapping:2
    c09_ReturnCallIndirect_traps => indirect_traps::<x::c09_rind>(I::ReturnCallIndirect(1, 1), 1, false, [1, 1]); // @bounded=1 loops=extend_with:5,rfold:1,revswap:1,swap_nonoverlapping:2
    c09_ReturnCallIndirect_traps64 => indirect_traps::<x::c09_rind>(I::ReturnCallIndirect(1, 1), 2, true, [2, 1]); // @bounded=1 loops=extend_with:5,rfold:1,revswap:1,swap_nonoverlapping:2
    c09_ReturnVoid_deep => ret_on::<x::c09_return>(Big::new(0), I::ReturnVoid, 2, [0; 3]);
    c09_Return32_deep => ret_on::<x::c09_return>(Big::new(0), I::Return32, 1, [1, 0, 0]);
    c09_Return_self => ret::<x::c09_return>(I::Return, 0, [1, 0, 1]); // @bounded=1
    c09_Return_other => ret::<x::c09_return>(I::Return, 1, [1, 1, 0]); // @bounded=1
    c09_Return_away => ret::<x::c09_return>(I::Return, 2, [1, 0, 0]); // @bounded=1
    c09_ReturnVoid_away => ret::<x::c09_return>(I::ReturnVoid, 2, [0, 0, 0]); // @bounded=1
    c09_Return32_away => ret::<x::c09_return>(I::Return32, 2, [1, 0, 0]); // @bounded=1
}
