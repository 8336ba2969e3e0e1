//! C06, C07: memory.size, memory.grow and the bulk memory instructions against a memory of any length and contents.
use crate::mach::*;
use crate::ghost::*;
use crate::frame::Cells;
#[cfg(not(kani))] use crate::kani;
pub fn any_len() -> usize { let l = kani::any::<u64>() as usize; kani::assume(l <= isize::MAX as usize); l }
/// an operand of a memory's address type
fn addr(is64: bool) -> u64 { if is64 { kani::any() } else { kani::any::<u32>() as u64 } }
fn push(m: &mut M, is64: bool, v: u64) { if is64 { x::push64(&mut m.s, v) } else { x::push32(&mut m.s, v as u32) } }
fn fits(a: u64, n: u64, len: usize) -> bool { a as u128 + n as u128 <= len as u128 }
fn ended(m: &M, out: Out, ok: bool, sent: &Sent) {
    if ok { assert!(out == Out::Next && m.r.ip == 1, "completes"); lens_are(m, [1; 3]); assert!(sent.intact(m), "cells below the operands"); }
    else { assert!(out == Out::Trap(x::T_MEMOOB), "out of bounds traps") }
}
/// the byte at a watched position that `[d, d+n)` contains or not
fn inside(at: usize, d: u64, n: u64) -> bool { at as u64 >= d && (at as u64 - d) < n }
pub fn size() {
    let is64: bool = kani::any(); let pages = kani::any::<u64>() as usize; kani::assume(is64 || pages <= 1 << 32);
    let mut g = Ghost::<1>::new(any_len(), 0); let (b0, l0) = (g.b, g.len);
    let mut m = M::new(4); m.mem_pages(&mut g, mem_type(is64), pages);
    let sent = Sent::put(&mut m);
    let out = m.exec::<x::c06_mem>(Instruction::MemorySize(1));
    assert!(out == Out::Next && m.r.ip == 1 && sent.intact(&m), "completes");
    if is64 { lens_are(&m, [1, 2, 1]); assert!(x::get64(&m.s, 1) == pages as u64, "size in pages") } else { lens_are(&m, [2, 1, 1]); assert!(x::get32(&m.s, 1) == pages as u32, "size in pages") }
    assert!(g.b == b0 && g.len == l0 && !g.stray && g.grown == 0 && vst::pages(&m.s, 0) == pages, "the memory is unchanged");
    m.done(); core::mem::forget(g);
}
/// any memory type of the page size: any limits the validator accepts
fn any_kind(is64: bool, ps: Option<u64>) -> MemoryType {
    let lim: u64 = match (is64, ps == Some(1)) { (false, false) => 1 << 16, (false, true) => 1 << 32, (true, false) => 1 << 48, (true, true) => u64::MAX };
    let max: Option<u64> = if kani::any() { let v: u64 = kani::any(); kani::assume(v <= lim); Some(v) } else { None };
    MemoryType::new(if is64 { MemoryArch::I64 } else { MemoryArch::I32 }, 0, max, ps)
}
/// `log` is the logarithm of the page size
pub fn grow(oom_traps: bool, ps: Option<u64>, log: u32) {
    let is64: bool = kani::any();
    let kind = any_kind(is64, ps);
    let pages = kani::any::<u64>() as usize; kani::assume(pages as u64 <= kind.page_count_max() && pages <= isize::MAX as usize >> log);
    let len = pages << log;
    let mut g = Ghost::<1>::new(len, kani::any::<u64>() as usize); g.full = kani::any(); let b0 = g.b; let at = g.at; let full = g.full;
    let mut m = M::with(4, oom_traps);
    m.mem_pages(&mut g, kind, pages);
    let sent = Sent::put(&mut m);
    let d = addr(is64); push(&mut m, is64, d);
    let out = m.exec::<x::c06_mem>(Instruction::MemoryGrow(1));
    // the limit is the declared maximum, or the implementation's when none is declared
    let new = pages as u128 + d as u128;
    let fits = new <= kind.page_count_max() as u128 && new <= (usize::MAX >> log) as u128;
    // the memory may be unable to grow; no memory exceeds isize::MAX bytes
    let cant = d != 0 && (full || new > (isize::MAX as usize >> log) as u128);
    let grows = fits && !cant;
    if oom_traps && fits && cant { assert!(matches!(out, Out::Trap(_)), "out of memory traps when so configured"); }
    else {
        assert!(out == Out::Next && m.r.ip == 1 && sent.intact(&m), "completes");
        let r = if grows { pages as u64 } else { u64::MAX };
        if is64 { lens_are(&m, [1, 2, 1]); assert!(x::get64(&m.s, 1) == r, "old size, or -1") } else { lens_are(&m, [2, 1, 1]); assert!(x::get32(&m.s, 1) == r as u32, "old size, or -1") }
    }
    assert!(!g.stray, "no byte is written");
    if grows { assert!(g.len == (new as usize) << log && vst::pages(&m.s, 0) == new as usize, "grown by exactly the pages asked for"); }
    else { assert!(g.len == len && vst::pages(&m.s, 0) == pages, "a failed grow changes nothing"); }
    if at < len || at >= g.len { assert!(g.b == b0, "old bytes kept") }
    m.done(); core::mem::forget(g);
}
pub fn fill() {
    let is64: bool = kani::any();
    let mut g = Ghost::<1>::new(any_len(), any_len()); let (len, b0) = (g.len, g.b[0]);
    let (d, n, v) = (addr(is64), addr(is64), kani::any::<u32>());
    let mut m = M::new(4); m.mem(&mut g, is64); let sent = Sent::put(&mut m);
    push(&mut m, is64, d); x::push32(&mut m.s, v); push(&mut m, is64, n);
    let out = m.exec::<x::c07_fill>(Instruction::MemoryFill(1));
    filled(&m, &g, out, sent, len, b0, d, n, v as u8);
    m.done(); core::mem::forget(g);
}
pub fn filled(m: &M, g: &Ghost<1>, out: Out, sent: Sent, len: usize, b0: u8, d: u64, n: u64, v: u8) {
    let ok = fits(d, n, len);
    ended(m, out, ok, &sent);
    assert!(g.len == len && g.grown == 0, "the length is unchanged");
    assert!(g.b[0] == if ok && inside(g.at, d, n) { v } else { b0 }, "every byte of the range is filled, no other changes");
}
pub fn fill_imm() {
    let is64: bool = kani::any();
    let mut g = Ghost::<1>::new(any_len(), any_len()); let (len, b0) = (g.len, g.b[0]);
    let d = addr(is64); let v: u8 = kani::any(); let n: i32 = kani::any();
    let mut m = M::new(4); m.mem(&mut g, is64); let sent = Sent::put(&mut m);
    push(&mut m, is64, d);
    let out = m.exec::<x::c07_fill>(Instruction::MemoryFillImm(1, v, n));
    filled(&m, &g, out, sent, len, b0, d, n as u32 as u64, v);
    m.done(); core::mem::forget(g);
}
/// within one memory, which the module may know under two indices
pub fn copy_same(is64: bool, dst_mem: u32) {
    let (d, s, n) = (addr(is64), addr(is64), addr(is64));
    let mut g = Ghost::<1>::new(any_len(), any_len()); let (len, b0) = (g.len, g.b[0]);
    // the byte that the watched one is copied from
    let src = (g.at as u64).wrapping_sub(d).wrapping_add(s) as usize;
    g.name2(src); let b2 = g.b2;
    let mut m = M::new(4); m.mem(&mut g, is64); let sent = Sent::put(&mut m);
    m.addrs[MEMS] = [0, 0];
    push(&mut m, is64, d); push(&mut m, is64, s); push(&mut m, is64, n);
    let out = m.exec::<x::c07_copy>(Instruction::MemoryCopy { dst_mem, src_mem: 1 });
    let ok = fits(d, n, len) && fits(s, n, len);
    ended(&m, out, ok, &sent);
    assert!(g.len == len && g.grown == 0, "the length is unchanged");
    assert!(g.b[0] == if ok && inside(g.at, d, n) { b2 } else { b0 }, "every byte of the range is copied, no other changes");
    m.done(); core::mem::forget(g);
}
/// between two memories: at most two buffers' worth of bytes
pub fn copy_other(max: u64, d64: bool, s64: bool) {
    let (d, s, n) = (addr(d64), addr(s64), addr(d64 && s64)); 
    let mut a = Ghost::<1>::new(any_len(), any_len()); let mut b = Ghost::<1>::new(any_len(), any_len());
    b.at = (a.at as u64).wrapping_sub(d).wrapping_add(s) as usize; b.at2 = b.at;
    let (al, a0, bl, b0) = (a.len, a.b[0], b.len, b.b);
    let ok = fits(d, n, al) && fits(s, n, bl);
    kani::assume(!ok || n <= max);
    let mut m = M::new(4); m.mem(&mut a, d64); m.mem2(&mut b, s64);
    let sent = Sent::put(&mut m);
    push(&mut m, d64, d); push(&mut m, s64, s); push(&mut m, d64 && s64, n);
    let out = m.exec::<x::c07_copy>(Instruction::MemoryCopy { dst_mem: 1, src_mem: 0 });
    ended(&m, out, ok, &sent);
    assert!(a.len == al && b.len == bl && a.grown == 0 && b.grown == 0, "the lengths are unchanged");
    assert!(b.b == b0 && !b.stray, "the source is unchanged");
    assert!(a.b[0] == if ok && inside(a.at, d, n) { b0[0] } else { a0 }, "every byte of the range is copied, no other changes");
    m.done(); core::mem::forget((a, b));
}
/// the bytes of a data segment of any length (or a dropped one)
pub fn init() {
    let is64: bool = kani::any(); let dropped: bool = kani::any();
    let (d, s, n) = (addr(is64), kani::any::<u32>(), kani::any::<u32>());
    let sl = kani::any::<u32>() as usize; kani::assume(sl <= 1 << 20);
    let mut g = Ghost::<1>::new(any_len(), any_len()); let (len, b0) = (g.len, g.b[0]);
    let mut m = M::new(4); m.mem(&mut g, is64); let sent = Sent::put(&mut m);
    let mut seg = vst::Dat::new::<Owned>(if dropped { None } else { Some(sl) });
    let (q, v) = ((g.at as u64).wrapping_sub(d).wrapping_add(s as u64) as usize, kani::any::<u8>());
    if q < sl { seg.set(q, v) }
    core::mem::forget(core::mem::replace(&mut m.datas, [seg, vst::Dat::new::<Owned>(None)]));
    push(&mut m, is64, d); x::push32(&mut m.s, s); x::push32(&mut m.s, n);
    let out = m.exec::<x::c07_init>(Instruction::MemoryInit(1, 1));
    let ok = fits(d, n as u64, len) && fits(s as u64, n as u64, if dropped { 0 } else { sl });
    ended(&m, out, ok, &sent);
    assert!(g.len == len && g.grown == 0, "the length is unchanged");
    assert!(g.b[0] == if ok && inside(g.at, d, n as u64) { v } else { b0 }, "every byte of the range is copied, no other changes");
    m.done(); core::mem::forget(g);
}
pub fn data_drop() {
    let (a, b) = (kani::any(), if kani::any() { Some(2) } else { None });
    let mut m = M::new(4); core::mem::forget(core::mem::replace(&mut m.datas, [vst::Dat::new::<Owned>(if a { Some(3) } else { None }), vst::Dat::new::<Owned>(b)]));
    let sent = Sent::put(&mut m);
    let out = m.exec::<x::c07_init>(Instruction::DataDrop(1));
    ended(&m, out, true, &sent);
    assert!(m.datas[0].len() == None && m.datas[1].len() == b, "exactly the named segment is dropped");
    m.done();
}
group!(c06_mem: MemorySize MemoryGrow);
group!(c07_fill: MemoryFill MemoryFillImm);
group!(c07_copy: MemoryCopy);
group!(c07_init: MemoryInit DataDrop);
entries! { C07 :
    c06_MemorySize_ => size();
    c06_MemoryGrow_ => grow(false, None, 16);
    c06_MemoryGrow_64k => grow(false, Some(65536), 16);
    c06_MemoryGrow_1 => grow(false, Some(1), 0);
    c06_MemoryGrow_trap => grow(true, None, 16);
    c07_MemoryFill_ => fill();
    c07_MemoryFillImm_ => fill_imm();
    c07_MemoryCopy_same => copy_same(false, 0); // @loops=copy_from_memory:2
    c07_MemoryCopy_same1 => copy_same(false, 1); // @loops=copy_from_memory:2
    c07_MemoryCopy_same64 => copy_same(true, 0); // @loops=copy_from_memory:2
    c07_MemoryCopy_other => copy_other(4100, false, false); // @bounded=1 tier=thorough cost=200 loops=copy_from_memory:3
    c07_MemoryCopy_other64 => copy_other(4100, true, true); // @bounded=1 cost=200 loops=copy_from_memory:3
    c07_MemoryCopy_other32 => copy_other(4096, false, true); // @bounded=1 loops=copy_from_memory:2
    c07_MemoryCopy_other3 => copy_other(4096, true, false); // @bounded=1 loops=copy_from_memory:2
    c07_MemoryInit_ => init();
    c07_DataDrop_ => data_drop();
}
