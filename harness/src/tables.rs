//! C08, C20: table and reference instructions against tables and element segments of any length and contents.
use crate::mach::*;
use crate::frame::Cells;
use crate::ghost::lens_are;
#[cfg(not(kani))] use crate::kani;
pub const NULL: u32 = u32::MAX;
/// no table is longer than this, and every implementation must be able to grow up to it
const LIMIT: u64 = 10_000_000;
fn len(max: u64) -> usize { let l: u64 = kani::any(); kani::assume(l <= max); l as usize }
fn any_ref() -> Option<u32> { let v: u32 = kani::any(); if v == NULL { None } else { Some(v) } }
fn raw(v: Option<u32>) -> u32 { match v { Some(v) => v, None => NULL } }
pub fn opd(is64: bool) -> u64 { if is64 { kani::any() } else { kani::any::<u32>() as u64 } }
pub fn push(m: &mut M, is64: bool, v: u64) { if is64 { x::push64(&mut m.s, v) } else { x::push32(&mut m.s, v as u32) } }
pub fn kind(is64: bool, f: bool, max: Option<u64>) -> TableType { let t = if f { WasmType::RefFunc } else { WasmType::RefExtern }; if is64 { TableType::new64(t, 0, max) } else { TableType::new(t, 0, max) } }
fn fits(a: u64, n: u64, len: usize) -> bool { a as u128 + n as u128 <= len as u128 }
fn inside(at: usize, d: u64, n: u64) -> bool { at as u64 >= d && (at as u64 - d) < n }
/// a table and one watched element of it (if it has one)
struct W { at: usize, v: Option<u32>, len: usize }
impl W {
    fn new(t: &mut vst::Tab) -> W { let w = W { at: kani::any::<u64>() as usize, v: any_ref(), len: t.len() }; if w.at < w.len { t.set(w.at, w.v) } w }
    fn same(&self, t: &vst::Tab) -> bool { t.len() == self.len && (self.at >= self.len || t.get(self.at) == self.v) }
}
fn put<T>(a: &mut T, v: T) { core::mem::forget(core::mem::replace(a, v)) }
fn two(a: vst::Tab) -> [vst::Tab; 2] { [a, vst::Tab::new::<Owned>(kind(false, true, None), 0)] }
fn tab(m: &M, i: usize) -> &vst::Tab { &m.tabs[i] }
fn ended(m: &M, out: Out, ok: bool, sent: &Sent) {
    if ok { assert!(out == Out::Next && m.r.ip == 1, "completes"); assert!(sent.intact(m), "cells below the operands"); }
    else { assert!(out == Out::Trap(x::T_TABOOB), "out of bounds traps") }
}
pub fn get() {
    let (is64, f) = (kani::any(), kani::any()); let i = opd(is64);
    let mut t = vst::Tab::new::<Owned>(kind(is64, f, None), len(LIMIT)); let l = t.len(); let v = any_ref();
    let w = W::new(&mut t); let v = if i as usize == w.at { w.v } else { v };
    if i < l as u64 { t.set(i as usize, v) }
    let mut m = M::new(4); put(&mut m.tabs, two(t));
    let sent = Sent::put(&mut m); push(&mut m, is64, i);
    let out = m.exec::<x::c08_get>(Instruction::TableGet(1));
    ended(&m, out, i < l as u64, &sent);
    if i < l as u64 { lens_are(&m, [2, 1, 1]); assert!(x::get32(&m.s, 1) == raw(v), "the element"); }
    assert!(w.same(tab(&m, 0)), "the table is unchanged");
    m.done();
}
pub fn set() {
    let (is64, f) = (kani::any(), kani::any()); let i = opd(is64);
    let mut t = vst::Tab::new::<Owned>(kind(is64, f, None), len(LIMIT)); let l = t.len(); let v = any_ref();
    let mut w = W::new(&mut t);
    let mut m = M::new(4); put(&mut m.tabs, two(t));
    let sent = Sent::put(&mut m); push(&mut m, is64, i); x::push32(&mut m.s, raw(v));
    let out = m.exec::<x::c08_set>(Instruction::TableSet(1));
    ended(&m, out, i < l as u64, &sent);
    if i < l as u64 { lens_are(&m, [1; 3]); if w.at as u64 == i { w.v = v } }
    assert!(w.same(tab(&m, 0)), "exactly the element is set");
    m.done();
}
pub fn size() {
    let (is64, f) = (kani::any(), kani::any());
    let mut t = vst::Tab::new::<Owned>(kind(is64, f, None), len(LIMIT)); let l = t.len(); let w = W::new(&mut t);
    let mut m = M::new(4); put(&mut m.tabs, two(t));
    let sent = Sent::put(&mut m);
    let out = m.exec::<x::c08_size>(Instruction::TableSize(1));
    ended(&m, out, true, &sent);
    if is64 { lens_are(&m, [1, 2, 1]); assert!(x::get64(&m.s, 1) == l as u64, "size") } else { lens_are(&m, [2, 1, 1]); assert!(x::get32(&m.s, 1) == l as u32, "size") }
    assert!(w.same(tab(&m, 0)), "the table is unchanged");
    m.done();
}
pub fn init(max: u64) {
    let (is64, f, dropped) = (kani::any(), kani::any(), kani::any());
    let (d, s, n) = (opd(is64), kani::any::<u32>() as u64, kani::any::<u32>() as u64);
    let mut t = vst::Tab::new::<Owned>(kind(is64, f, None), len(max)); let l = t.len(); let mut w = W::new(&mut t);
    let mut e = vst::Elem::new::<Owned>(if dropped { None } else { Some(len(max)) }); let el = e.len().unwrap_or(0);
    let (q, v) = ((w.at as u64).wrapping_sub(d).wrapping_add(s) as usize, any_ref());
    if q < el { e.set(q, v) }
    let mut m = M::new(4); put(&mut m.tabs, two(t)); put(&mut m.elems, [e, vst::Elem::new::<Owned>(None)]);
    let sent = Sent::put(&mut m); push(&mut m, is64, d); x::push32(&mut m.s, s as u32); x::push32(&mut m.s, n as u32);
    let out = m.exec::<x::c08_init>(Instruction::TableInit(1, 1));
    let ok = fits(d, n, l) && fits(s, n, el);
    ended(&m, out, ok, &sent);
    if ok { lens_are(&m, [1; 3]); if inside(w.at, d, n) { w.v = v } }
    assert!(w.same(tab(&m, 0)), "exactly the range is copied");
    m.done();
}
/// a table of `l` elements
pub fn copy_same(l: usize, is64: bool, dst_table: u32) {
    let f = kani::any(); let (d, s, n) = (opd(is64), opd(is64), opd(is64));
    let mut t = vst::Tab::new::<Owned>(kind(is64, f, None), l); let mut w = W::new(&mut t);
    let q = (w.at as u64).wrapping_sub(d).wrapping_add(s) as usize; let v = if q == w.at { w.v } else { any_ref() };
    if q < l { t.set(q, v) }
    let mut m = M::new(4); put(&mut m.tabs, two(t)); m.addrs[TABLES] = [0, 0];
    let sent = Sent::put(&mut m); push(&mut m, is64, d); push(&mut m, is64, s); push(&mut m, is64, n);
    let out = m.exec::<x::c08_copy>(Instruction::TableCopy { dst_table, src_table: 1 });
    let ok = fits(d, n, l) && fits(s, n, l);
    ended(&m, out, ok, &sent);
    if ok { lens_are(&m, [1; 3]); if inside(w.at, d, n) { w.v = v } }
    assert!(w.same(tab(&m, 0)), "exactly the range is copied");
    m.done();
}
pub fn copy_other(max: u64) {
    let (d64, s64, f) = (kani::any(), kani::any(), kani::any()); let (d, s, n) = (opd(d64), opd(s64), opd(d64 && s64));
    let mut t = vst::Tab::new::<Owned>(kind(d64, f, None), len(max)); let l = t.len(); let mut w = W::new(&mut t);
    let mut u = vst::Tab::new::<Owned>(kind(s64, f, None), len(max)); let ul = u.len();
    let q = (w.at as u64).wrapping_sub(d).wrapping_add(s) as usize; let v = any_ref();
    if q < ul { u.set(q, v) }
    let mut m = M::new(4); put(&mut m.tabs, [t, u]);
    let sent = Sent::put(&mut m); push(&mut m, d64, d); push(&mut m, s64, s); push(&mut m, d64 && s64, n);
    let out = m.exec::<x::c08_copy>(Instruction::TableCopy { dst_table: 1, src_table: 0 });
    let ok = fits(d, n, l) && fits(s, n, ul);
    ended(&m, out, ok, &sent);
    if ok { lens_are(&m, [1; 3]); if inside(w.at, d, n) { w.v = v } }
    assert!(w.same(tab(&m, 0)), "exactly the range is copied");
    assert!(W { at: q, v, len: ul }.same(tab(&m, 1)), "the source is unchanged");
    m.done();
}
/// `k` elements, or any number that must fail
pub fn fill(is64: bool, k: Option<u64>) {
    let f = kani::any(); let (d, v) = (opd(is64), any_ref()); let n = match k { Some(k) => k, None => opd(is64) };
    let mut t = vst::Tab::new::<Owned>(kind(is64, f, None), len(LIMIT)); let l = t.len(); let mut w = W::new(&mut t);
    let ok = fits(d, n, l); kani::assume(!ok || k.is_some());
    let mut m = M::new(4); put(&mut m.tabs, two(t));
    let sent = Sent::put(&mut m); push(&mut m, is64, d); x::push32(&mut m.s, raw(v)); push(&mut m, is64, n);
    let out = m.exec::<x::c08_fill>(Instruction::TableFill(1));
    ended(&m, out, ok, &sent);
    if ok { lens_are(&m, [1; 3]); if inside(w.at, d, n) { w.v = v } }
    assert!(w.same(tab(&m, 0)), "exactly the range is filled");
    m.done();
}
/// growing a table of `l` elements: by `k` (a constant: the verifier's arrays then have a constant size), or by any
/// number that must fail
pub fn grow(is64: bool, l: usize, k: Option<u64>) {
    let f = kani::any(); let v = any_ref();
    let n = match k { Some(k) => k, None => opd(is64) };
    let max: Option<u64> = if kani::any() { let x: u64 = kani::any(); kani::assume(x >= l as u64 && (is64 || x <= u32::MAX as u64)); Some(x) } else { None };
    let mut t = vst::Tab::new::<Owned>(kind(is64, f, max), l); let w = W::new(&mut t);
    let new = l as u128 + n as u128;
    let ok = new <= max.unwrap_or(u64::MAX) as u128 && new <= LIMIT as u128; kani::assume(!ok || k.is_some());
    let mut m = M::new(4); put(&mut m.tabs, two(t));
    let sent = Sent::put(&mut m); x::push32(&mut m.s, raw(v)); push(&mut m, is64, n);
    let out = m.exec::<x::c08_grow>(Instruction::TableGrow(1));
    ended(&m, out, true, &sent);
    let r = if ok { l as u64 } else { u64::MAX };
    if is64 { lens_are(&m, [1, 2, 1]); assert!(x::get64(&m.s, 1) == r, "old size, or -1") } else { lens_are(&m, [2, 1, 1]); assert!(x::get32(&m.s, 1) == r as u32, "old size, or -1") }
    let t = tab(&m, 0);
    assert!(t.len() == if ok { new as usize } else { l }, "grown by exactly what was asked for, or not at all");
    if w.at < t.len() { assert!(t.get(w.at) == if w.at < l { w.v } else { v }, "old elements kept, new ones initialised"); }
    m.done();
}
pub fn elem_drop() {
    let (a, b) = (kani::any(), if kani::any() { Some(2) } else { None });
    let mut m = M::new(4); put(&mut m.elems, [vst::Elem::new::<Owned>(if a { Some(3) } else { None }), vst::Elem::new::<Owned>(b)]);
    let sent = Sent::put(&mut m);
    let out = m.exec::<x::c08_drop>(Instruction::ElemDrop(1));
    ended(&m, out, true, &sent); lens_are(&m, [1; 3]);
    assert!(m.elems[0].len() == None && m.elems[1].len() == b, "exactly the named segment is dropped");
    m.done();
}
pub fn ref_null() {
    let mut m = M::new(4); let sent = Sent::put(&mut m);
    let out = m.exec::<x::c20_ref>(Instruction::RefNull(if kani::any() { WasmType::RefFunc } else { WasmType::RefExtern }));
    ended(&m, out, true, &sent); lens_are(&m, [2, 1, 1]); assert!(x::get32(&m.s, 1) == NULL, "the null reference");
    m.done();
}
pub fn ref_is_null() {
    let mut m = M::new(4); let sent = Sent::put(&mut m); let v: u32 = kani::any(); x::push32(&mut m.s, v);
    let out = m.exec::<x::c20_ref>(Instruction::RefIsNull);
    ended(&m, out, true, &sent); lens_are(&m, [2, 1, 1]); assert!(x::get32(&m.s, 1) == (v == NULL) as u32, "1 for null, else 0");
    m.done();
}
pub fn ref_func() {
    let mut m = M::new(4); m.addrs[FUNCS] = [kani::any(), kani::any()]; let a = m.addrs[FUNCS]; kani::assume(a[0] != NULL && a[1] != NULL);
    let sent = Sent::put(&mut m); let i: bool = kani::any();
    let out = m.exec::<x::c20_ref>(Instruction::RefFunc(i as u32));
    ended(&m, out, true, &sent); lens_are(&m, [2, 1, 1]); assert!(x::get32(&m.s, 1) == a[i as usize], "the function's own reference, never null");
    m.done();
}
group!(c08_get: TableGet);
group!(c08_set: TableSet);
group!(c08_size: TableSize);
group!(c08_init: TableInit);
group!(c08_copy: TableCopy);
group!(c08_fill: TableFill);
group!(c08_grow: TableGrow);
group!(c08_drop: ElemDrop);
group!(c20_ref: RefNull RefIsNull RefFunc);
entries! { C08 :
    c08_TableGet_ => get();
    c08_TableSet_ => set();
    c08_TableSize_ => size();
    c08_TableInit_ => init(LIMIT);
    c08_TableCopy_same => copy_same(6, false, 0); // @bounded=1
    c08_TableCopy_same1 => copy_same(6, false, 1); // @bounded=1
    c08_TableCopy_same64 => copy_same(5, true, 0); // @bounded=1
    c08_TableCopy_other => copy_other(LIMIT);
    c08_TableFill_fails => fill(false, None); // @loops=fill:1
    c08_TableFill_fails64 => fill(true, None); // @loops=fill:1
    c08_TableFill_0 => fill(false, Some(0)); // @bounded=1 loops=fill:1
    c08_TableFill_1 => fill(false, Some(1)); // @bounded=1 loops=fill:2
    c08_TableFill_3 => fill(false, Some(3)); // @bounded=1 loops=fill:4
    c08_TableFill_64 => fill(true, Some(3)); // @bounded=1 loops=fill:4
    c08_TableGrow_fails => grow(false, 2, None); // @loops=extend_with:1
    c08_TableGrow_fails64 => grow(true, 2, None); // @loops=extend_with:1
    c08_TableGrow_0 => grow(false, 0, Some(0)); // @bounded=1
    c08_TableGrow_1 => grow(false, 0, Some(1)); // @bounded=1
    c08_TableGrow_2 => grow(false, 3, Some(2)); // @bounded=1
    c08_TableGrow_7 => grow(false, 2, Some(7)); // @bounded=1
    c08_TableGrow_64 => grow(true, 3, Some(2)); // @bounded=1
    c08_ElemDrop_ => elem_drop();
    c20_RefNull_ => ref_null();
    c20_RefIsNull_ => ref_is_null();
    c20_RefFunc_ => ref_func();
}
