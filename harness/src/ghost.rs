//! The contract of a linear memory (the documentation of `tinywasm::LinearMemory`), as an implementation of the
//! trait: a memory of any length and any contents.  `W` (16, or 1) bytes starting at `at` are named, so that a contract
//! can speak of them; every other byte reads as an arbitrary value, and a write to it sets `stray`.  Callers are
//! verified against this contract; the memories of /repo are verified to satisfy it (vecmem.rs, paged.rs).
use crate::mach::*;
use alloc::sync::Arc;
#[cfg(not(kani))] use crate::kani;
use tinywasm::{LinearMemory, Trap};
pub struct Ghost<const W: usize = 16> { pub len: usize, pub at: usize, pub b: [u8; W], pub at2: usize, pub b2: u8, pub stray: bool, pub grown: u8, pub full: bool, pub short: bool }
fn oob(offset: usize, len: usize, max: usize) -> Trap { Trap::MemoryOutOfBounds { offset, len, max } }
impl<const W: usize> Ghost<W> {
    pub fn new(len: usize, at: usize) -> Self { let a = any128(); let mut b = [0; W]; let mut i = 0; while i < W { b[i] = a[i]; i += 1 } Ghost { len, at, b, at2: at, b2: b[0], stray: false, grown: 0, full: false, short: false } }
    pub fn ok(&self, addr: usize, n: usize) -> bool { addr <= self.len && n <= self.len - addr }
    /// the byte at `p`: its value if it is named, else anything
    pub fn byte(&self, p: usize) -> u8 { let j = p.wrapping_sub(self.at); if j < W { self.b[j] } else if p == self.at2 { self.b2 } else { kani::any() } }
    /// a second named byte (outside the first ones)
    pub fn name2(&mut self, at2: usize) { let j = at2.wrapping_sub(self.at); if j < W { self.b2 = self.b[j] } else { self.b2 = kani::any() } self.at2 = at2; }
    fn get<const N: usize>(&self, addr: usize) -> Result<[u8; N], Trap> {
        if !self.ok(addr, N) { return Err(oob(addr, N, self.len)) }
        let a = any128(); let k = addr.wrapping_sub(self.at);
        let mut r = [0; N];
        let mut i = 0; while i < N { let j = k.wrapping_add(i); r[i] = if j < W { self.b[j] } else { a[i] }; i += 1 }
        Ok(r)
    }
    fn put<const N: usize>(&mut self, addr: usize, s: &[u8]) -> Result<(), Trap> {
        assert!(s.len() == N, "a fixed-width write of another width");
        if !self.ok(addr, N) { return Err(oob(addr, N, self.len)) }
        let k = addr.wrapping_sub(self.at);
        let mut i = 0; while i < N { let j = k.wrapping_add(i); if j < W { self.b[j] = s[i] } else { self.stray = true } i += 1 }
        Ok(())
    }
    /// how many of `n` bytes a short read or write at `addr` transfers: at least one if there is one, and never more
    /// than there are
    fn some(&self, addr: usize, n: usize) -> usize {
        assert!(self.short, "outside this contract");
        if addr >= self.len || n == 0 { return 0 }
        let k = kani::any::<u64>() as usize; kani::assume(k >= 1 && k <= n && k <= self.len - addr); k
    }
    /// every named byte in `[addr, addr + len)` gets the value `f` of its offset
    fn range(&mut self, addr: usize, len: usize, f: impl Fn(&Self, usize) -> u8) {
        if len > 0 { self.stray = true }
        let mut nb = self.b; let mut i = 0;
        while i < W { let k = self.at.wrapping_add(i).wrapping_sub(addr); if k < len { nb[i] = f(self, k) } i += 1 }
        let k = self.at2.wrapping_sub(addr); let n2 = if k < len { f(self, k) } else { self.b2 };
        self.b = nb; self.b2 = n2;
    }
}
impl<const W: usize> LinearMemory for Ghost<W> {
    fn len(&self) -> usize { self.len }
    fn grow_to(&mut self, new_len: usize) -> Result<(), Trap> {
        if new_len < self.len { return Err(oob(new_len, 0, self.len)) }
        if self.full || new_len > isize::MAX as usize { return Err(Trap::OutOfMemory) }
        let (o, n) = (self.len, new_len - self.len); self.len = new_len; self.grown = self.grown.saturating_add(1); let st = self.stray; self.range(o, n, |_, _| 0); self.stray = st; Ok(())
    }
    fn read(&self, addr: usize, d: &mut [u8]) -> usize {
        let n = self.some(addr, d.len());
        let mut i = 0; while i < W { let k = self.at.wrapping_add(i).wrapping_sub(addr); if k < n { d[k] = self.b[i] } i += 1 }
        let k = self.at2.wrapping_sub(addr); if k < n { d[k] = self.b2 }
        n
    }
    fn write(&mut self, addr: usize, s: &[u8]) -> usize { let n = self.some(addr, s.len()); self.range(addr, n, |_, k| s[k]); n }
    fn read_exact(&self, addr: usize, d: &mut [u8]) -> Option<()> {
        if !self.ok(addr, d.len()) { return None }
        let mut i = 0; while i < W { let k = self.at.wrapping_add(i).wrapping_sub(addr); if k < d.len() { d[k] = self.b[i] } i += 1 }
        let k = self.at2.wrapping_sub(addr); if k < d.len() { d[k] = self.b2 }
        Some(())
    }
    fn read_vec(&self, _: usize, _: usize) -> Option<Vec<u8>> { panic!("outside this contract") }
    fn write_all(&mut self, addr: usize, s: &[u8]) -> Option<()> { if !self.ok(addr, s.len()) { return None } self.range(addr, s.len(), |_, k| s[k]); Some(()) }
    fn fill(&mut self, addr: usize, len: usize, v: u8) -> Option<()> { if !self.ok(addr, len) { return None } self.range(addr, len, |_, _| v); Some(()) }
    fn copy_within(&mut self, dst: usize, src: usize, len: usize) -> Option<()> { if !self.ok(dst, len) || !self.ok(src, len) { return None } self.range(dst, len, |g, k| g.byte(src + k)); Some(()) }
    fn read_8(&self, a: usize) -> Result<[u8; 1], Trap> { self.get(a) }
    fn read_16(&self, a: usize) -> Result<[u8; 2], Trap> { self.get(a) }
    fn read_32(&self, a: usize) -> Result<[u8; 4], Trap> { self.get(a) }
    fn read_64(&self, a: usize) -> Result<[u8; 8], Trap> { self.get(a) }
    fn read_128(&self, a: usize) -> Result<[u8; 16], Trap> { self.get(a) }
    fn write_8(&mut self, a: usize, s: &[u8]) -> Result<(), Trap> { self.put::<1>(a, s) }
    fn write_16(&mut self, a: usize, s: &[u8]) -> Result<(), Trap> { self.put::<2>(a, s) }
    fn write_32(&mut self, a: usize, s: &[u8]) -> Result<(), Trap> { self.put::<4>(a, s) }
    fn write_64(&mut self, a: usize, s: &[u8]) -> Result<(), Trap> { self.put::<8>(a, s) }
    fn write_128(&mut self, a: usize, s: &[u8]) -> Result<(), Trap> { self.put::<16>(a, s) }
}
pub fn mem_box<const W: usize>(g: &mut Ghost<W>) -> Box<dyn LinearMemory> { unsafe { Box::from_raw(g as *mut Ghost<W>) } }
pub fn mem_type(is64: bool) -> MemoryType { MemoryType::new(if is64 { MemoryArch::I64 } else { MemoryArch::I32 }, 0, None, None) }
/// the effective address of the specification, if the access is in bounds
pub fn ea(base: u64, off: u64, n: usize, len: usize) -> Option<usize> { let e = base as u128 + off as u128; if e + n as u128 <= len as u128 { Some(e as usize) } else { None } }
/// An access: a machine whose memory 1 is the ghost memory (address 0 of the store), an address and an offset.
pub struct Acc { pub is64: bool, pub base: u64, pub arg: MemoryArg, pub e: Option<usize>, pub len: usize, pub b0: [u8; 16] }
impl Acc {
    pub fn any(n: usize, is64: bool) -> (Acc, Ghost) {
        let len = kani::any::<u64>() as usize; kani::assume(len <= isize::MAX as usize);
        let base: u64 = if is64 { kani::any() } else { kani::any::<u32>() as u64 };
        let off: u64 = if is64 { kani::any() } else { kani::any::<u32>() as u64 };
        let e = ea(base, off, n, len);
        let g = Ghost::new(len, match e { Some(a) => a, None => kani::any() });
        (Acc { is64, base, arg: MemoryArg::new(off, 1), e, len, b0: g.b }, g)
    }
    pub fn push_base(&self, m: &mut M) { if self.is64 { x::push64(&mut m.s, self.base) } else { x::push32(&mut m.s, self.base as u32) } }
    pub fn untouched(&self, g: &Ghost) { assert!(!g.stray && g.b == self.b0 && g.len == self.len && g.grown == 0, "the memory is unchanged"); }
    pub fn written(&self, g: &Ghost, n: usize, v: &[u8; 16]) {
        let mut want = self.b0; let mut i = 0; while i < n { want[i] = v[i]; i += 1 }
        assert!(!g.stray && g.len == self.len && g.grown == 0, "no other byte is written");
        assert!(g.b == want, "bytes written");
    }
}
/// a memory that is never looked at
pub struct NoMem;
impl LinearMemory for NoMem {
    fn len(&self) -> usize { panic!("another memory") }
    fn grow_to(&mut self, _: usize) -> Result<(), Trap> { panic!("another memory") }
    fn read(&self, _: usize, _: &mut [u8]) -> usize { panic!("another memory") }
    fn write(&mut self, _: usize, _: &[u8]) -> usize { panic!("another memory") }
    fn read_exact(&self, _: usize, _: &mut [u8]) -> Option<()> { panic!("another memory") }
    fn read_vec(&self, _: usize, _: usize) -> Option<Vec<u8>> { panic!("another memory") }
    fn write_all(&mut self, _: usize, _: &[u8]) -> Option<()> { panic!("another memory") }
    fn fill(&mut self, _: usize, _: usize, _: u8) -> Option<()> { panic!("another memory") }
    fn copy_within(&mut self, _: usize, _: usize, _: usize) -> Option<()> { panic!("another memory") }
    fn read_8(&self, _: usize) -> Result<[u8; 1], Trap> { panic!("another memory") }
    fn read_16(&self, _: usize) -> Result<[u8; 2], Trap> { panic!("another memory") }
    fn read_32(&self, _: usize) -> Result<[u8; 4], Trap> { panic!("another memory") }
    fn read_64(&self, _: usize) -> Result<[u8; 8], Trap> { panic!("another memory") }
    fn read_128(&self, _: usize) -> Result<[u8; 16], Trap> { panic!("another memory") }
    fn write_8(&mut self, _: usize, _: &[u8]) -> Result<(), Trap> { panic!("another memory") }
    fn write_16(&mut self, _: usize, _: &[u8]) -> Result<(), Trap> { panic!("another memory") }
    fn write_32(&mut self, _: usize, _: &[u8]) -> Result<(), Trap> { panic!("another memory") }
    fn write_64(&mut self, _: usize, _: &[u8]) -> Result<(), Trap> { panic!("another memory") }
    fn write_128(&mut self, _: usize, _: &[u8]) -> Result<(), Trap> { panic!("another memory") }
}
pub fn no_mem() -> vst::Mem { vst::memory(mem_type(false), Box::new(NoMem), 0) }
impl M {
    /// memory 1 of the module is number 0 of the store
    pub fn mem<const W: usize>(&mut self, g: &mut Ghost<W>, is64: bool) { self.mem_pages(g, mem_type(is64), 0) }
    pub fn mem_pages<const W: usize>(&mut self, g: &mut Ghost<W>, kind: MemoryType, pages: usize) {
        core::mem::forget(core::mem::replace(&mut self.mems[0], vst::memory(kind, mem_box(g), pages)));
    }
    pub fn mem2<const W: usize>(&mut self, g: &mut Ghost<W>, is64: bool) { core::mem::forget(core::mem::replace(&mut self.mems[1], vst::memory(mem_type(is64), mem_box(g), 0))) }
}
pub fn lens_are(m: &M, a: [usize; 3]) { assert!(x::lens(&m.s) == a, "stack effect"); }
pub fn low(v: u128) -> [u8; 16] { v.to_le_bytes() }
pub fn top(m: &M, cls: usize, i: usize) -> [u8; 16] { match cls { 0 => low(x::get32(&m.s, i) as u128), 1 => low(x::get64(&m.s, i) as u128), _ => x::get128(&m.s, i) } }
