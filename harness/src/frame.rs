//! A frame anywhere in a value stack of any depth, with any number of locals: the cells a contract names hold
//! symbolic values, one more cell (at a symbolic index) stands for every other one.
use crate::mach::*;
#[cfg(not(kani))] use crate::kani;
pub use tinywasm::verif::value_stack as vs;
pub const CAP: usize = 200_000;
/// under Kani the cells hold arbitrary values, natively zeroes (every cell a contract looks at is set explicitly)
pub struct Cells;
impl vs::Mk for Cells { fn mk<T: Copy + Default>(len: usize, cap: usize) -> Vec<T> {
    let mut d: Vec<T> = Vec::with_capacity(cap);
    #[cfg(not(kani))] d.resize(len, T::default());
    #[cfg(kani)] unsafe { d.set_len(len) }
    d
} }
pub struct Big { pub m: M, pub len: [usize; 3], pub w: [usize; 3], pub pre: (u32, u64, [u8; 16]) }
impl Big {
    /// class `c` of the stack has any depth and any room; the other two have three and four cells
    pub fn new(c: usize) -> Big { let cap = kani::any::<u32>() as usize; kani::assume(cap <= CAP); Big::with(c, cap) }
    /// at most seven cells (of 64 or 128 bits: the verifier's arrays of them do not scale)
    pub fn small(c: usize) -> Big { Big::with(c, 8) }
    fn with(c: usize, cap: usize) -> Big {
        let n = kani::any::<u32>() as usize;
        kani::assume(n < cap && n > 0);
        Big::of_len(c, cap, n, kani::any())
    }
    /// five cells
    pub fn five(c: usize) -> Big { Big::of_len(c, 8, 5, 1) }
    fn of_len(c: usize, cap: usize, n: usize, base: u32) -> Big {
        let mut m = M::new(4);
        let mut len = [3; 3]; len[c] = n;
        let mut caps = [5; 3]; caps[c] = cap;
        vs::make::<Cells>(&mut m.s, len, caps, caps, false);
        m.r.base = [1; 3]; m.r.base[c] = base;
        let mut w = [0, 0, 0]; w[c] = kani::any::<u32>() as usize; kani::assume(w[c] < n);
        let mut b = Big { m, len, w, pre: (kani::any(), kani::any(), any128()) };
        vs::set32(&mut b.m.s, b.w[0], b.pre.0); vs::set64(&mut b.m.s, b.w[1], b.pre.1); vs::set128(&mut b.m.s, b.w[2], b.pre.2);
        b
    }
    /// the cell of local `l` of class `c`; it lies below the `ops` operands
    pub fn ix(&self, c: usize, l: u16, ops: usize) -> usize { let i = self.m.r.base[c] as usize + l as usize; kani::assume(self.len[c] >= ops && i < self.len[c] - ops); i }
    pub fn set32(&mut self, i: usize) { vs::set32(&mut self.m.s, i, kani::any()) }
    pub fn set64(&mut self, i: usize) { vs::set64(&mut self.m.s, i, kani::any()) }
    pub fn set128(&mut self, i: usize) { vs::set128(&mut self.m.s, i, any128()) }
    pub fn r32(&self, i: usize) -> u32 { x::get32(&self.m.s, i) }
    pub fn r64(&self, i: usize) -> u64 { x::get64(&self.m.s, i) }
    pub fn r128(&self, i: usize) -> [u8; 16] { x::get128(&self.m.s, i) }
    /// operand `k` from the top
    pub fn op32(&mut self, k: usize) -> u32 { kani::assume(self.len[0] > k); let i = self.len[0] - 1 - k; self.set32(i); self.r32(i) }
    pub fn op64(&mut self, k: usize) -> u64 { kani::assume(self.len[1] > k); let i = self.len[1] - 1 - k; self.set64(i); self.r64(i) }
    pub fn op128(&mut self, k: usize) -> [u8; 16] { kani::assume(self.len[2] > k); let i = self.len[2] - 1 - k; self.set128(i); self.r128(i) }
    /// fixes the frame condition: the watched cells as they are now
    pub fn seal(&mut self) { self.pre = (self.r32(self.w[0]), self.r64(self.w[1]), self.r128(self.w[2])); }
    /// stack effect and frame: `pop` operands gone, `push` results there, every cell below as before except `wr`
    pub fn frame(&self, pop: [usize; 3], push: [usize; 3], wr: Option<(usize, usize)>) {
        let n = x::lens(&self.m.s);
        assert!(n[0] == self.len[0] - pop[0] + push[0] && n[1] == self.len[1] - pop[1] + push[1] && n[2] == self.len[2] - pop[2] + push[2], "stack effect");
        let keep = |c: usize| self.w[c] < self.len[c] - pop[c] && wr != Some((c, self.w[c]));
        assert!(!keep(0) || self.r32(self.w[0]) == self.pre.0, "another 32-bit cell changed");
        assert!(!keep(1) || self.r64(self.w[1]) == self.pre.1, "another 64-bit cell changed");
        assert!(!keep(2) || self.r128(self.w[2]) == self.pre.2, "another 128-bit cell changed");
    }
    pub fn next(&self, out: Out) { assert!(out == Out::Next && self.m.r.ip == 1, "completes, control goes on"); }
}
