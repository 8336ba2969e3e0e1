//! C12: the limits of the value and call stacks, and their growth up to the limits.
use crate::mach::*;
use crate::frame::*;
use crate::calls::*;
use Instruction as I;
#[cfg(not(kani))] use crate::kani;
/// a fixed stack of any size, any depth: a push succeeds exactly if there is room
fn push_fixed() {
    let cap = kani::any::<u32>() as usize; kani::assume(cap <= CAP && cap > 0);
    let n = kani::any::<u32>() as usize; kani::assume(n <= cap && n > 0);
    let mut m = M::new(4);
    let max = kani::any::<u32>() as usize;
    vs::make::<Cells>(&mut m.s, [n, 0, 0], [cap, 0, 0], [max, 0, 0], false);
    let l: u16 = kani::any(); m.r.base = [kani::any(), 0, 0]; let i = m.r.base[0] as usize + l as usize; kani::assume(i < n);
    let w = kani::any::<u32>() as usize; kani::assume(w < n);
    let (v, pre) = (kani::any(), kani::any()); vs::set32(&mut m.s, w, pre); vs::set32(&mut m.s, i, v); let pre = x::get32(&m.s, w);
    let out = m.exec::<x::c12_push>(I::LocalGet32(l));
    pushed(&m, out, 0, n, n < cap);
    if n < cap { assert!(x::get32(&m.s, n) == v, "the value") }
    assert!(x::get32(&m.s, w) == pre, "the values below"); assert!(vs::caps(&m.s)[0] == cap, "a fixed stack does not grow");
    m.done()
}
fn pushed(m: &M, out: Out, c: usize, n: usize, ok: bool) {
    if ok { assert!(out == Out::Next && m.r.ip == 1, "a value that fits is pushed"); assert!(x::lens(&m.s)[c] == n + 1, "stack effect") }
    else { assert!(out == Out::Trap(x::T_VSTACK), "a value that does not fit traps"); assert!(x::lens(&m.s)[c] == n, "nothing is pushed") }
}
fn wide(c: usize, n: usize, cap: usize, max: usize, dynamic: bool) {
    let mut m = M::new(4);
    let mut a = [1; 3]; a[c] = n; let mut b = [4; 3]; b[c] = cap; let mut d = [4; 3]; d[c] = max;
    vs::make::<Cells>(&mut m.s, a, b, d, dynamic);
    let v = kani::any::<u128>();
    match c { 0 => vs::set32(&mut m.s, 0, v as u32), 1 => vs::set64(&mut m.s, 0, v as u64), _ => vs::set128(&mut m.s, 0, v.to_le_bytes()) }
    let ok = n < cap || (dynamic && n < max);
    let out = m.exec::<x::c12_push>(match c { 0 => I::LocalGet32(0), 1 => I::LocalGet64(0), _ => I::LocalGet128(0) });
    pushed(&m, out, c, n, ok);
    let val = |i: usize| match c { 0 => x::get32(&m.s, i) as u128, 1 => x::get64(&m.s, i) as u128, _ => u128::from_le_bytes(x::get128(&m.s, i)) };
    let v = match c { 0 => v as u32 as u128, 1 => v as u64 as u128, _ => v };
    assert!(val(0) == v && (!ok || val(n) == v), "the values");
    let cap2 = vs::caps(&m.s)[c];
    assert!(if n < cap || !ok { cap2 == cap } else { cap2 <= max }, "the stack grows only when it has to, and never beyond its maximum");
    m.done()
}
/// growing stacks: a call's locals, up to the maximum
fn enter(cap: usize, max: usize, p: usize, l: usize) {
    let mut m = M::new(4); let n = 3;
    vs::make::<Cells>(&mut m.s, [n, 1, 1], [cap, 4, 4], [max, 4, 4], true);
    let vals: [u32; 3] = [kani::any(), kani::any(), kani::any()]; let mut i = 0; while i < 3 { vs::set32(&mut m.s, i, vals[i]); i += 1 }
    let mut b = Big { m, len: [n, 1, 1], w: [0; 3], pre: (0, 0, [0; 16]) };
    let mut w = World::new(I::CallSelf); w.shape(0, [p, 0, 0], [l, 0, 0]);
    let out = w.run::<x::c12_self>(&mut b);
    let end = n - p + l;
    let cap2 = vs::caps(&b.m.s)[0];
    if end > cap && end > max { assert!(out == Out::Trap(x::T_CSTACK), "locals that do not fit trap"); assert!(cap2 == cap, "no growth") }
    else {
        assert!(out == Out::Next && x::lens(&b.m.s)[0] == end, "locals that fit are there"); assert!(if end <= cap { cap2 == cap } else { cap2 <= max }, "never beyond the maximum");
        let mut i = 0; while i < end { assert!(x::get32(&b.m.s, i) == if i < n { vals[i] } else { 0 }, "arguments kept, locals zero"); i += 1 }
    }
    b.m.done()
}
/// a growing call stack
fn frames(depth: usize, max: usize) {
    let mut b = Big::five(0); let mut w = World::new(I::CallSelf); w.depth = depth; w.heap = Some(max); w.wf = 9; w.shape(0, [0; 3], [1, 0, 0]);
    let out = w.run::<x::c12_self>(&mut b);
    if depth < max { assert!(out == Out::Next && vcs::depth(&b.m.s) == depth + 1, "a call within the limit is made"); assert!(vcs::cap(&b.m.s) <= max, "never beyond the maximum") }
    else { assert!(out == Out::Trap(x::T_CSTACK) && vcs::depth(&b.m.s) == depth, "a call beyond the limit traps"); assert!(vcs::cap(&b.m.s) == depth, "no growth") }
    b.m.done()
}
group!(c12_push: LocalGet32 LocalGet64 LocalGet128);
group!(c12_self: CallSelf);
group!(c12_call: Call CallSelf);
group!(c12_tail: ReturnCall ReturnCallSelf);
entries! { C12 :
    c12_Push_fixed => push_fixed();
    c12_Push_fixed64 => wide(1, 3, 3, 9, false);
    c12_Push_fixed128 => wide(2, 3, 3, 9, false);
    c12_Push_room => wide(1, 3, 4, 9, false);
    c12_Push_grow32 => wide(0, 4, 4, 5, true);
    c12_Push_grow64 => wide(1, 3, 3, 9, true);
    c12_Push_grow128 => wide(2, 2, 2, 3, true);
    c12_Push_max32 => wide(0, 4, 4, 4, true);
    c12_Push_max64 => wide(1, 5, 5, 3, true);
    c12_Push_max128 => wide(2, 3, 3, 3, true);
    c12_Enter_room => enter(5, 5, 1, 3); // @bounded=1
    c12_Enter_grow => enter(4, 6, 1, 4); // @bounded=1
    c12_Enter_grow5 => enter(4, 5, 2, 4); // @bounded=1
    c12_Enter_max => enter(4, 5, 1, 4); // @bounded=1
    c12_Frames_grow => frames(2, 3); // @bounded=1
    c12_Frames_max => frames(3, 3); // @bounded=1
    c12_Call_32 => call::<x::c12_call>(I::Call(0), How::Call, 1, 0, 3); // @bounded=1 loops=extend_with:5
    c12_CallSelf_32 => call::<x::c12_call>(I::CallSelf, How::Call, 0, 0, 3); // @bounded=1 loops=extend_with:5
    c12_CallSelf_full => full::<x::c12_call>(I::CallSelf, 0, 0); // @bounded=1 loops=extend_with:5
    c12_Call_full => full::<x::c12_call>(I::Call(0), 1, 0); // @bounded=1 loops=extend_with:5
    c12_ReturnCall_32 => call::<x::c12_tail>(I::ReturnCall(1), How::Tail, 2, 0, 3); // @bounded=1 loops=extend_with:5
    c12_ReturnCallSelf_32 => call::<x::c12_tail>(I::ReturnCallSelf, How::Tail, 0, 0, 3); // @bounded=1 loops=extend_with:5
}
