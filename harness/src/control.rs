//! C10: branches, drops, selects and returns on a stack of any depth.
use crate::mach::*;
use crate::frame::*;
use crate::tables::opd;
use vs::Mk;
#[cfg(not(kani))] use crate::kani;
impl Big {
    pub fn any_at(&mut self, c: usize, i: usize) { match c { 0 => self.set32(i), 1 => self.set64(i), _ => self.set128(i) } }
    pub fn val(&self, c: usize, i: usize) -> u128 { match c { 0 => self.r32(i) as u128, 1 => self.r64(i) as u128, _ => u128::from_le_bytes(self.r128(i)) } }
    fn pre_of(&self, c: usize) -> u128 { match c { 0 => self.pre.0 as u128, 1 => self.pre.1 as u128, _ => u128::from_le_bytes(self.pre.2) } }
    pub fn of(c: usize) -> Big { if c == 0 { Big::new(0) } else { Big::small(c) } }
}
/// of each class, the `keep` topmost cells go down to `to`, everything above goes away, everything below stays
pub struct Keep { to: [usize; 3], keep: [usize; 3], j: [usize; 3], v: [u128; 3] }
impl Keep {
    pub fn new(b: &mut Big, to: [usize; 3], keep: [usize; 3]) -> Keep {
        let mut k = Keep { to, keep, j: [0; 3], v: [0; 3] };
        let mut c = 0; while c < 3 {
            kani::assume(to[c] <= b.len[c] && keep[c] <= b.len[c] - to[c]);
            if keep[c] > 0 { k.j[c] = kani::any::<u32>() as usize; kani::assume(k.j[c] < keep[c]); let i = b.len[c] - keep[c] + k.j[c]; b.any_at(c, i); k.v[c] = b.val(c, i); }
            c += 1 }
        b.seal(); k
    }
    pub fn check(&self, b: &Big) {
        let n = x::lens(&b.m.s);
        let mut c = 0; while c < 3 {
            assert!(n[c] == self.to[c] + self.keep[c], "stack effect");
            if b.w[c] < self.to[c] { assert!(b.val(c, b.w[c]) == b.pre_of(c), "a cell below changed") }
            if self.keep[c] > 0 { assert!(b.val(c, self.to[c] + self.j[c]) == self.v[c], "the kept values, in order") }
            c += 1 }
    }
}
fn one(c: usize, v: usize) -> [usize; 3] { let mut a = [0; 3]; a[c] = v; a }
fn jumped(b: &Big, out: Out, taken: bool, t: u32) { assert!(out == Out::Next && b.m.r.ip == if taken { t as usize } else { 1 }, "jumps exactly when the condition holds"); }
fn jump() { let mut b = Big::new(0); let t = kani::any(); b.seal(); let out = b.m.exec::<x::c10_jump>(Instruction::Jump(t)); jumped(&b, out, true, t); b.frame([0; 3], [0; 3], None); b.m.done() }
fn jump_if32(nz: bool) { let mut b = Big::new(0); let t = kani::any(); let v = b.op32(0); b.seal(); let out = b.m.exec::<x::c10_jump>(if nz { Instruction::JumpIfNonZero32(t) } else { Instruction::JumpIfZero32(t) }); jumped(&b, out, (v != 0) == nz, t); b.frame([1, 0, 0], [0; 3], None); b.m.done() }
fn jump_if64(nz: bool) { let mut b = Big::small(1); let t = kani::any(); let v = b.op64(0); b.seal(); let out = b.m.exec::<x::c10_jump>(if nz { Instruction::JumpIfNonZero64(t) } else { Instruction::JumpIfZero64(t) }); jumped(&b, out, (v != 0) == nz, t); b.frame([0, 1, 0], [0; 3], None); b.m.done() }
/// any number of targets, anywhere in the function's target list
fn branch_table() {
    let mut b = Big::new(0); let i = b.op32(0); b.seal();
    let (all, start, len, default): (u32, u32, u32, u32) = (kani::any(), kani::any(), kani::any(), kani::any());
    kani::assume(all <= 1 << 20 && start as u64 + len as u64 <= all as u64);
    let mut ts = Cells::mk::<u32>(all as usize, all as usize);
    let t = kani::any(); if i < len { ts[(start + i) as usize] = t }
    let out = b.m.exec_fn::<x::c10_branch>(Instruction::BranchTable(default, start, len), |f| f.data.branch_table_targets = slice_box(&mut ts));
    jumped(&b, out, true, if i < len { t } else { default }); b.frame([1, 0, 0], [0; 3], None); b.m.done(); core::mem::forget(ts);
}
fn drop(c: usize) {
    let mut b = Big::of(c); b.seal();
    let out = b.m.exec::<x::c10_drop>(match c { 0 => Instruction::Drop32, 1 => Instruction::Drop64, _ => Instruction::Drop128 });
    b.next(out); b.frame(one(c, 1), [0; 3], None); b.m.done()
}
fn select(c: usize) {
    let mut b = Big::of(c); let cond = b.op32(0); let n = b.len[c] - if c == 0 { 1 } else { 0 }; kani::assume(n >= 2);
    b.any_at(c, n - 1); b.any_at(c, n - 2); let want = if cond != 0 { b.val(c, n - 2) } else { b.val(c, n - 1) }; b.seal();
    let out = b.m.exec::<x::c10_select>(match c { 0 => Instruction::Select32, 1 => Instruction::Select64, _ => Instruction::Select128 });
    b.next(out); let mut pop = one(c, 2); pop[0] += 1; b.frame(pop, one(c, 1), None);
    assert!(b.val(c, n - 2) == want, "the first operand if the condition holds, else the second"); b.m.done()
}
fn select_multi(c: usize, k: u16) {
    let mut b = Big::small(c); let cond = b.op32(0); let n = b.len[c] - if c == 0 { 1 } else { 0 }; let k_ = k as usize; kani::assume(n >= 2 * k_);
    let j = kani::any::<u32>() as usize; kani::assume(j < k_); b.any_at(c, n - k_ + j); b.any_at(c, n - 2 * k_ + j);
    let want = if cond != 0 { b.val(c, n - 2 * k_ + j) } else { b.val(c, n - k_ + j) };
    // another class: one value (two if it is not the class of the condition, which has three cells)
    let o = if c == 0 { 1 } else { 0 }; b.any_at(o, 0); b.any_at(o, 1); let want_o = if cond != 0 { b.val(o, 0) } else { b.val(o, 1) };
    if o == 1 { b.any_at(1, 2); b.any_at(1, 1); } let want_o = if o == 1 { if cond != 0 { b.val(1, 1) } else { b.val(1, 2) } } else { want_o };
    b.seal();
    let mut cs = [0u16; 3]; cs[c] = k; cs[o] += 1;
    let out = b.m.exec::<x::c10_select>(Instruction::SelectMulti(counts(cs[0], cs[1], cs[2])));
    b.next(out); let mut pop = [2 * cs[0] as usize + 1, 2 * cs[1] as usize, 2 * cs[2] as usize]; b.frame(pop, [cs[0] as usize, cs[1] as usize, cs[2] as usize], None);
    assert!(b.val(c, n - 2 * k_ + j) == want, "the first values if the condition holds, else the second"); 
    assert!(b.val(o, if o == 1 { 1 } else { 0 }) == want_o, "the other class"); b.m.done()
}
/// `k` values are kept of class `c`, one of each other
fn drop_keep(c: usize, k: u16) {
    let mut b = Big::small(c);
    let (off, base): (u16, u16) = (kani::any(), kani::any());
    let mut o = [0u16; 3]; o[c] = off; b.m.r.off = counts(o[0], o[1], o[2]);
    let mut bs = [0u16; 3]; bs[c] = base; let mut ks = [1u16; 3]; ks[c] = k;
    let mut to = [1; 3]; to[c] = b.m.r.base[c] as usize + off as usize + base as usize;
    let kp = Keep::new(&mut b, to, [ks[0] as usize, ks[1] as usize, ks[2] as usize]);
    let out = b.m.exec::<x::c10_dropkeep>(Instruction::DropKeep(DropKeep { base: counts(bs[0], bs[1], bs[2]), keep: counts(ks[0], ks[1], ks[2]) }));
    b.next(out); kp.check(&b); b.m.done()
}
fn ret<G: x::Group>(i: Instruction, c: usize, ks: [u16; 3]) {
    let mut b = if ks[0] > 1 { Big::small(0) } else { Big::of(c) }; let r = b.m.r.base; let to = [r[0] as usize, r[1] as usize, r[2] as usize];
    let kp = Keep::new(&mut b, to, [ks[0] as usize, ks[1] as usize, ks[2] as usize]);
    let out = b.m.exec_fn::<G>(i, |f| f.results = counts(ks[0], ks[1], ks[2]));
    assert!(out == Out::Done, "the outermost call is done"); kp.check(&b); b.m.done()
}
group!(c10_jump: Jump JumpIfZero32 JumpIfNonZero32 JumpIfZero64 JumpIfNonZero64);
group!(c10_branch: BranchTable);
group!(c10_drop: Drop32 Drop64 Drop128);
group!(c10_select: Select32 Select64 Select128 SelectMulti);
group!(c10_dropkeep: DropKeep);
group!(c10_return: Return ReturnVoid Return32 Return64 Return128);
entries! { C10 :
    c10_Jump_ => jump();
    c10_JumpIfZero32_ => jump_if32(false);
    c10_JumpIfNonZero32_ => jump_if32(true);
    c10_JumpIfZero64_ => jump_if64(false); // @bounded=1
    c10_JumpIfNonZero64_ => jump_if64(true); // @bounded=1
    c10_BranchTable_ => branch_table();
    c10_Drop32_ => drop(0);
    c10_Drop64_ => drop(1); // @bounded=1
    c10_Drop128_ => drop(2); // @bounded=1
    c10_Select32_ => select(0);
    c10_Select64_ => select(1); // @bounded=1
    c10_Select128_ => select(2); // @bounded=1
    c10_SelectMulti_1 => select_multi(0, 1); // @bounded=1
    c10_SelectMulti_3 => select_multi(0, 3); // @bounded=1
    c10_SelectMulti_64 => select_multi(1, 2); // @bounded=1
    c10_SelectMulti_128 => select_multi(2, 2); // @bounded=1
    c10_DropKeep_0 => drop_keep(0, 0); // @bounded=1
    c10_DropKeep_1 => drop_keep(0, 1); // @bounded=1
    c10_DropKeep_3 => drop_keep(0, 3); // @bounded=1
    c10_DropKeep_any => drop_keep(0, kani::any()); // @bounded=1
    c10_DropKeep_64 => drop_keep(1, 2); // @bounded=1
    c10_DropKeep_128 => drop_keep(2, 2); // @bounded=1
    c10_Return_32 => ret::<x::c10_return>(Instruction::Return, 0, [2, 1, 1]); // @bounded=1
    c10_Return_64 => ret::<x::c10_return>(Instruction::Return, 1, [1, 2, 0]); // @bounded=1
    c10_Return_128 => ret::<x::c10_return>(Instruction::Return, 2, [0, 1, 2]); // @bounded=1
    c10_ReturnVoid_ => ret::<x::c10_return>(Instruction::ReturnVoid, 0, [0, 0, 0]);
    c10_Return32_ => ret::<x::c10_return>(Instruction::Return32, 0, [1, 0, 0]);
    c10_Return64_ => ret::<x::c10_return>(Instruction::Return64, 1, [0, 1, 0]); // @bounded=1
    c10_Return128_ => ret::<x::c10_return>(Instruction::Return128, 2, [0, 0, 1]); // @bounded=1
}
