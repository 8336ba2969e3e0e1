//! C05: the memories of /repo against the contract of a linear memory (ghost.rs): the contiguous one of any length,
//! the chunked one with up to three chunks, the lazy one over any memory, and the default methods of the trait over
//! any memory with short reads and writes.
use crate::mach::*;
use crate::ghost::*;
use crate::membulk::any_len;
#[cfg(not(kani))] use crate::kani;
use tinywasm::engine::{LazyLinearMemory, MemoryBackend, PagedMemory, VecMemory};
use tinywasm::verif::{lazy as hl, paged as hp, vec_memory as hv};
use tinywasm::{LinearMemory, Trap};
fn addr() -> usize { kani::any::<u64>() as usize }
fn inb(a: usize, n: usize, len: usize) -> bool { a as u128 + n as u128 <= len as u128 }
fn within(p: usize, a: usize, n: usize) -> bool { p >= a && p - a < n }
/// reads of each width: in bounds the bytes there, out of bounds a trap
macro_rules! rd { ($m:expr, $f:ident, $n:expr, $a:expr, $len:expr, $get:expr) => { {
    let (a, len) = ($a, $len); let k = kani::any::<u32>() as usize % $n;
    let g = $m.$f(a);
    if inb(a, $n, len) { assert!(matches!(&g, Ok(b) if b[k] == $get(a + k)), "the bytes read") } else { assert!(matches!(g, Err(Trap::MemoryOutOfBounds { .. })), "out of bounds traps") }
    core::mem::forget(g);
} } }
/// the contiguous memory: any length and contents
fn vec_any() -> (VecMemory, usize) {
    let len = kani::any::<u32>() as usize; kani::assume(cfg!(kani) || len <= 1 << 20);
    (hv::make(<Owned as vst::Own>::any(0u8, len)), len)
}
pub fn vec_read(which: u8) {
    let (mut m, len) = vec_any(); let a = addr();
    let p = addr(); let v: u8 = kani::any(); if p < len { hv::set(&mut m, p, v) }
    assert!(m.len() == len, "length");
    macro_rules! go { ($f:ident $n:expr) => { {
        kani::assume(!inb(a, $n, len) || within(p, a, $n));
        let g = m.$f(a);
        if inb(a, $n, len) { assert!(matches!(&g, Ok(b) if b[p - a] == v), "the bytes read") } else { assert!(matches!(g, Err(Trap::MemoryOutOfBounds { .. })), "out of bounds traps") }
        core::mem::forget(g);
    } } }
    match which { 1 => go!(read_8 1), 2 => go!(read_16 2), 4 => go!(read_32 4), 8 => go!(read_64 8), _ => go!(read_128 16) }
    assert!(m.len() == len && (p >= len || hv::get(&m, p) == v), "a read changes nothing");
    core::mem::forget(m);
}
fn write_fixed(m: &mut dyn LinearMemory, n: usize, a: usize, s: &[u8; 16]) -> Result<(), Trap> { match n { 1 => m.write_8(a, &s[..1]), 2 => m.write_16(a, &s[..2]), 4 => m.write_32(a, &s[..4]), 8 => m.write_64(a, &s[..8]), _ => m.write_128(a, s) } }
pub fn vec_write(n: usize) {
    let (mut m, len) = vec_any(); let a = addr();
    let p = addr(); let v: u8 = kani::any(); if p < len { hv::set(&mut m, p, v) }
    let s = any128();
    let g = write_fixed(&mut m, n, a, &s);
    let ok = inb(a, n, len);
    assert!(if ok { g.is_ok() } else { matches!(g, Err(Trap::MemoryOutOfBounds { .. })) }, "writes in bounds, traps out of bounds");
    assert!(m.len() == len, "length");
    if p < len { assert!(hv::get(&m, p) == if ok && within(p, a, n) { s[p - a] } else { v }, "the bytes written, and no others") }
    core::mem::forget((m, g));
}
/// growing to fewer bytes fails, whatever the length
pub fn vec_shrink() {
    let (mut m, len) = vec_any(); let n = addr(); kani::assume(n < len);
    let p = addr(); let v: u8 = kani::any(); if p < len { hv::set(&mut m, p, v) }
    let g = m.grow_to(n); assert!(g.is_err(), "never shrinks");
    assert!(m.len() == len && (p >= len || hv::get(&m, p) == v), "unchanged");
    core::mem::forget((m, g));
}
/// growing from `len` to `to` bytes
pub fn vec_grow(len: usize, to: usize) {
    let x = any128(); let mut m = hv::make(x[..len].to_vec());
    let g = m.grow_to(to); assert!(g.is_ok() && m.len() == to, "grows");
    let p = addr(); if p < to { assert!(hv::get(&m, p) == if p < len { x[p] } else { 0 }, "old contents, then zeroes") }
    core::mem::forget((m, g));
}
/// creating a memory: zeroes
pub fn vec_new(len: usize) { let r = VecMemory::try_new(len); match r { Ok(m) => { assert!(m.len() == len, "length"); let p = addr(); if p < len { assert!(hv::get(&m, p) == 0, "zeroes") } core::mem::forget(m) } Err(e) => { core::mem::forget(e); assert!(false, "created") } } }
pub fn paged_new(len: usize, shift: u32) { let r = PagedMemory::try_new(len, 1 << shift); match r { Ok(m) => { assert!(m.len() == len && hp::ok(&m), "length"); let p = addr(); if p < len { assert!(hp::get(&m, p) == 0, "zeroes") } core::mem::forget(m) } Err(e) => { core::mem::forget(e); assert!(false, "created") } } }
/// growing from `len` to `to` bytes of chunks of two, chunk 0 present
pub fn paged_grow(len: usize, to: usize) {
    let x = any128(); let mut v: Vec<Option<Box<[u8]>>> = Vec::new(); let mut i = 0;
    while i < len.div_ceil(2) { if i == 0 { v.push(Some(Box::new([x[0], x[1]]))) } else { v.push(None) } i += 1 }
    let mut m = hp::make(len, 1, v);
    let g = m.grow_to(to);
    let n = if to < len { assert!(g.is_err(), "never shrinks"); len } else { assert!(g.is_ok(), "grows"); to };
    assert!(m.len() == n && hp::ok(&m), "length");
    let p = addr(); if p < n { assert!(hp::get(&m, p) == if p < 2 { x[p] } else { 0 }, "old contents, then zeroes") }
    core::mem::forget((m, g));
}
const S: usize = 12;
/// a contiguous memory of up to twelve bytes and a copy of its contents
fn vec_small() -> (VecMemory, [u8; S], usize) {
    let x = any128(); let len = kani::any::<u32>() as usize; kani::assume(len <= S);
    let mut b = [0; S]; let mut d: Vec<u8> = Vec::with_capacity(S); let mut i = 0;
    while i < S { b[i] = x[i]; d.push(x[i]); i += 1 }
    d.truncate(len);
    (hv::make(d), b, len)
}
/// a sequence of operations' specification on an array: the byte at p afterwards
fn after(b: &[u8; S], p: usize, ok: bool, a: usize, n: usize, f: impl Fn(usize) -> u8) -> u8 { if ok && within(p, a, n) { f(p - a) } else { b[p] } }
/// range operations on a memory of up to twelve bytes (`get`: the byte at an address)
pub fn ranges<T: LinearMemory>(m: &mut T, b: &[u8; S], len: usize, op: u8, most: usize, get: impl Fn(&T, usize) -> u8) {
    let a = addr(); let n = addr(); let s = any128();
    let p = addr(); kani::assume(p < S);
    let mut want = b[p]; let mut wlen = len;
    match op {
        0 => { let v: u8 = kani::any(); let g = m.fill(a, n, v); assert!(g.is_some() == inb(a, n, len), "fill: in bounds or not"); want = after(b, p, inb(a, n, len), a, n, |_| v) }
        1 => { let d = addr(); kani::assume(n <= most || !inb(a, n, len)); let g = m.copy_within(d, a, n); let ok = inb(a, n, len) && inb(d, n, len); assert!(g.is_some() == ok, "copy: in bounds or not"); want = after(b, p, ok, d, n, |k| b[a + k]) }
        2 => { kani::assume(n <= S); let g = m.write_all(a, &s[..n]); assert!(g.is_some() == inb(a, n, len), "write: in bounds or not"); want = after(b, p, inb(a, n, len), a, n, |k| s[k]) }
        3 => { kani::assume(n <= S); let k = m.write(a, &s[..n]); let most = if a < len { if n < len - a { n } else { len - a } } else { 0 }; assert!(k <= most && (k > 0 || most == 0), "how much is written"); want = after(b, p, true, a, k, |k| s[k]) }
        4 => { kani::assume(n <= S); let mut d = s; let g = m.read_exact(a, &mut d[..n]); let ok = inb(a, n, len); assert!(g.is_some() == ok, "read: in bounds or not"); let q = addr(); kani::assume(q < 16); if q >= n { assert!(d[q] == s[q], "no byte after") } else if ok { assert!(d[q] == b[a + q], "the bytes read") } }
        5 => { kani::assume(n <= S); let mut d = s; let k = m.read(a, &mut d[..n]); let most = if a < len { if n < len - a { n } else { len - a } } else { 0 }; assert!(k <= most && (k > 0 || most == 0), "how much is read"); let q = addr(); kani::assume(q < 16); if q < k { assert!(d[q] == b[a + q], "the bytes read") } else if q >= n { assert!(d[q] == s[q], "no byte after") } }
        _ => { kani::assume(n <= S); let g = m.grow_to(n); assert!(g.is_ok() == (n >= len), "grows, never shrinks"); if n >= len { wlen = n; if p >= len { want = 0 } } core::mem::forget(g) }
    }
    assert!(m.len() == wlen, "length");
    if p < wlen { assert!(get(m, p) == want, "contents") }
}
pub fn vec_ranges(op: u8) { let (mut m, b, len) = vec_small(); ranges(&mut m, &b, len, op, S, hv::get); core::mem::forget(m) }
/// the chunked memory: three chunks of two or four bytes, absent ones included
static mut C0: [u8; 4] = [0; 4]; static mut C1: [u8; 4] = [0; 4]; static mut C2: [u8; 4] = [0; 4]; static mut D0: [u8; 2] = [0; 2]; static mut D1: [u8; 2] = [0; 2]; static mut D2: [u8; 2] = [0; 2];
static mut CS: [Option<Box<[u8]>>; 3] = [const { None }; 3];
fn paged_chunk<const N: usize>(heap: bool, d: &mut [u8; N], v: &mut Option<Box<[u8]>>, b: &mut [u8; S], x: &[u8; 16], i: usize, len: usize) {
    let cs = N; let some: bool = kani::any(); let mut j = 0;
    // bytes past the end are zero
    while j < cs { let p = i * cs + j; d[j] = if p < len { x[p] } else { 0 }; if p < S && some { b[p] = d[j] } j += 1 }
    unsafe { core::ptr::write(v, if some { Some(if heap { Box::new(*d) } else { slice_box(d) }) } else { None }) }
}
fn paged_small(shift: u32, heap: bool) -> (PagedMemory, [u8; S], usize) {
    let x = any128(); let cs = 1usize << shift; let len = kani::any::<u32>() as usize; kani::assume(len > 2 * cs && len <= 3 * cs);
    let v = unsafe { &mut *(&raw mut CS) };
    let mut b = [0; S];
    macro_rules! go { ($a:ident $b:ident $c:ident) => { unsafe {
        paged_chunk(heap, &mut *(&raw mut $a), &mut v[0], &mut b, &x, 0, len);
        paged_chunk(heap, &mut *(&raw mut $b), &mut v[1], &mut b, &x, 1, len);
        paged_chunk(heap, &mut *(&raw mut $c), &mut v[2], &mut b, &x, 2, len);
    } } }
    if shift == 1 { go!(D0 D1 D2) } else { go!(C0 C1 C2) }
    (hp::make(len, shift, <Owned as vst::Own>::vec(v)), b, len)
}
pub fn paged_ranges(shift: u32, op: u8) {
    let (mut m, b, len) = paged_small(shift, op == 0);
    ranges(&mut m, &b, len, op, 4, hp::get);
    assert!(hp::ok(&m), "one chunk for each part of the length");
    core::mem::forget(m)
}
pub fn paged_fixed(shift: u32, write: bool) {
    let (mut m, b, len) = paged_small(shift, false); let a = addr();
    if write {
        let n = match kani::any::<u8>() % 4 { 0 => 1, 1 => 2, 2 => 4, _ => 8 }; let s = any128();
        let g = write_fixed(&mut m, n, a, &s); let ok = inb(a, n, len);
        assert!(if ok { g.is_ok() } else { matches!(g, Err(Trap::MemoryOutOfBounds { .. })) }, "writes in bounds, traps out of bounds");
        let p = addr(); if p < len { assert!(hp::get(&m, p) == after(&b, p, ok, a, n, |k| s[k]), "contents") }
        core::mem::forget(g);
    } else {
        match kani::any::<u8>() % 4 { 0 => rd!(m, read_8, 1, a, len, |p: usize| b[p]), 1 => rd!(m, read_16, 2, a, len, |p: usize| b[p]), 2 => rd!(m, read_32, 4, a, len, |p: usize| b[p]), _ => rd!(m, read_64, 8, a, len, |p: usize| b[p]) }
        let p = addr(); if p < len { assert!(hp::get(&m, p) == b[p], "a read changes nothing") }
    }
    assert!(m.len() == len && hp::ok(&m), "length");
    core::mem::forget(m)
}
/// the default methods, over any memory: only what the trait requires is defined here
pub struct Dflt<const W: usize>(pub Ghost<W>);
impl<const W: usize> LinearMemory for Dflt<W> {
    fn len(&self) -> usize { self.0.len }
    fn grow_to(&mut self, n: usize) -> Result<(), Trap> { self.0.grow_to(n) }
    fn read(&self, a: usize, d: &mut [u8]) -> usize { self.0.read(a, d) }
    fn write(&mut self, a: usize, s: &[u8]) -> usize { self.0.write(a, s) }
}
fn ghost() -> Ghost<1> { let len = any_len(); let at = addr(); let mut g = Ghost::<1>::new(len, at); g.short = true; g }
pub fn dflt_read(n: usize) {
    let m = Dflt(ghost()); let a = addr(); let (len, p, v) = (m.0.len, m.0.at, m.0.b[0]);
    macro_rules! go { ($f:ident $n:expr) => { {
        kani::assume(!inb(a, $n, len) || within(p, a, $n));
        let g = m.$f(a);
        if inb(a, $n, len) { assert!(matches!(&g, Ok(b) if b[p - a] == v), "the bytes read") } else { assert!(matches!(g, Err(Trap::MemoryOutOfBounds { .. })), "out of bounds traps") }
        core::mem::forget(g);
    } } }
    match n { 1 => go!(read_8 1), 2 => go!(read_16 2), 4 => go!(read_32 4), 8 => go!(read_64 8), _ => go!(read_128 16) }
    core::mem::forget(m);
}
pub fn dflt_write(n: usize) {
    let mut m = Dflt(ghost()); let a = addr(); let (len, p, v) = (m.0.len, m.0.at, m.0.b[0]);
    let s = any128();
    let g = write_fixed(&mut m, n, a, &s); let ok = inb(a, n, len);
    assert!(if ok { g.is_ok() } else { matches!(g, Err(Trap::MemoryOutOfBounds { .. })) }, "writes in bounds, traps out of bounds");
    assert!(m.0.len == len && m.0.grown == 0 && m.0.b[0] == if ok && within(p, a, n) { s[p - a] } else { v }, "the bytes written, and no others");
    assert!(ok || !m.0.stray, "nothing is written out of bounds");
    core::mem::forget((m, g));
}
/// slices, fills and copies of up to three bytes (any memory, any addresses)
pub fn dflt_range(op: u8) {
    let mut m = Dflt(ghost()); let (len, p, v) = (m.0.len, m.0.at, m.0.b[0]);
    let a = addr(); let n = addr(); let s = any128();
    let most = if op == 3 { 2 } else { 3 };
    kani::assume(n <= most || !inb(a, n, len));
    let mut want = v;
    match op {
        0 => { kani::assume(n <= most && (!inb(a, n, len) || n == 0 || within(p, a, n))); let mut d = s; let g = m.read_exact(a, &mut d[..n]); assert!(g.is_some() == inb(a, n, len), "read: in bounds or not"); if g.is_some() && n > 0 { assert!(d[p - a] == v, "the bytes read") } }
        1 => { kani::assume(n <= most); let g = m.write_all(a, &s[..n]); assert!(g.is_some() == inb(a, n, len), "write: in bounds or not"); if g.is_some() && within(p, a, n) { want = s[p - a] } }
        2 => { let x: u8 = kani::any(); let g = m.fill(a, n, x); assert!(g.is_some() == inb(a, n, len), "fill: in bounds or not"); if g.is_some() && within(p, a, n) { want = x } }
        _ => { let d = addr(); let ok = inb(a, n, len) && inb(d, n, len);
            // the byte that lands on the watched one
            let q = p.wrapping_sub(d).wrapping_add(a); m.0.name2(q); let v2 = m.0.b2; kani::assume(!ok || n <= most);
            let g = m.copy_within(d, a, n); assert!(g.is_some() == ok, "copy: in bounds or not"); if ok && within(p, d, n) { want = v2 } }
    }
    assert!(m.0.len == len && m.0.grown == 0 && m.0.b[0] == want, "contents");
    core::mem::forget(m);
}
/// what the factory of a lazy memory hands out: the ghost memory
struct Fwd(usize);
fn gh(p: usize) -> &'static mut Ghost<1> { unsafe { &mut *(p as *mut Ghost<1>) } }
static mut G: Option<Ghost<1>> = None;
impl LinearMemory for Fwd {
    fn len(&self) -> usize { gh(self.0).len() }
    fn grow_to(&mut self, n: usize) -> Result<(), Trap> { gh(self.0).grow_to(n) }
    fn read(&self, a: usize, d: &mut [u8]) -> usize { gh(self.0).read(a, d) }
    fn write(&mut self, a: usize, s: &[u8]) -> usize { gh(self.0).write(a, s) }
    fn write_all(&mut self, a: usize, s: &[u8]) -> Option<()> { gh(self.0).write_all(a, s) }
    fn fill(&mut self, a: usize, n: usize, v: u8) -> Option<()> { gh(self.0).fill(a, n, v) }
    fn copy_within(&mut self, d: usize, a: usize, n: usize) -> Option<()> { gh(self.0).copy_within(d, a, n) }
}
static mut FRESH: usize = 0;
/// the contract of `MemoryBackend::create`, in its place under Kani: a memory of at least that length, all zeroes, or a
/// trap; the memory is the ghost one
pub fn create(_: &MemoryBackend, _: MemoryType, initial_len: usize) -> tinywasm::Result<Box<dyn LinearMemory>> {
    let p = unsafe { FRESH }; assert!(gh(p).len == initial_len, "created with the initial length");
    Ok(Box::new(Fwd(p)))
}
/// the lazy memory, materialised or not, over any memory; ranges of any length (slices: up to eight bytes)
pub fn lazy(op: u8, materialized: bool) {
    let mut g = ghost(); let (len, p) = (g.len, g.at);
    let other = kani::any::<u64>() as usize;
    if !materialized { g.b = [0]; g.b2 = 0 }
    let a = addr(); let n = addr(); let d = addr(); let s = any128();
    // for copies: the byte that lands on the watched one
    if op == 3 && materialized { let q = p.wrapping_sub(d).wrapping_add(a); g.name2(q) }
    g.full = kani::any();
    let (v, v2, full) = (g.b[0], g.b2, g.full);
    let gp = &mut g as *mut Ghost<1> as usize;
    unsafe { FRESH = gp }
    let mut m = if materialized { hl::make(mem_type(true), other, MemoryBackend::vec(), Some(Box::new(Fwd(gp)))) } else { hl::make(mem_type(true), len, MemoryBackend::custom(move |_| Ok(Fwd(gp))), None) };
    assert!(m.len() == len, "length");
    let mut want = v; let mut wlen = len;
    match op {
        0 => { let g = m.grow_to(n); let ok = n >= len && (!full && n <= isize::MAX as usize); assert!(g.is_ok() == ok, "grows, never shrinks"); if ok { wlen = n; if p >= len && p < n { want = 0 } } core::mem::forget(g) }
        1 => { kani::assume(n <= 8); let g = m.write_all(a, &s[..n]); assert!(g.is_some() == inb(a, n, len), "write: in bounds or not"); if g.is_some() && within(p, a, n) { want = s[p - a] } }
        2 => { let x: u8 = kani::any(); let g = m.fill(a, n, x); assert!(g.is_some() == inb(a, n, len), "fill: in bounds or not"); if g.is_some() && within(p, a, n) { want = x } }
        3 => { let ok = inb(a, n, len) && inb(d, n, len); let g = m.copy_within(d, a, n); assert!(g.is_some() == ok, "copy: in bounds or not"); if ok && within(p, d, n) && materialized { want = v2 } }
        4 => { kani::assume(n <= 8); let k = m.write(a, &s[..n]); let most = if a < len { if n < len - a { n } else { len - a } } else { 0 }; assert!(k <= most && (k > 0 || most == 0), "how much is written"); if within(p, a, k) { want = s[p - a] } }
        _ => { kani::assume(n <= 8); let mut x = s; let k = m.read(a, &mut x[..n]); let most = if a < len { if n < len - a { n } else { len - a } } else { 0 }; assert!(k <= most && (k > 0 || most == 0), "how much is read"); if within(p, a, k) { assert!(x[p - a] == v, "the bytes read") } assert!(hl::materialized(&m) == materialized, "a read allocates nothing") }
    }
    assert!(m.len() == wlen, "length");
    // afterwards a read of the watched byte sees it
    if p < wlen { let mut x = [0x5a]; let k = m.read(p, &mut x); assert!(k == 1 && x[0] == want, "contents") }
    core::mem::forget((m, g));
}
entries! { MEMORIES :
    c05_vec_read8 => vec_read(1); // @unwind=20
    c05_vec_read16 => vec_read(2); // @unwind=20
    c05_vec_read32 => vec_read(4); // @unwind=20
    c05_vec_read64 => vec_read(8); // @unwind=20
    c05_vec_read128 => vec_read(16); // @unwind=20
    c05_vec_write8 => vec_write(1); // @unwind=20
    c05_vec_write16 => vec_write(2); // @unwind=20
    c05_vec_write32 => vec_write(4); // @unwind=20
    c05_vec_write64 => vec_write(8); // @unwind=20
    c05_vec_write128 => vec_write(16); // @unwind=20
    c05_vec_fill => vec_ranges(0); // @unwind=20 bounded=1
    c05_vec_copy => vec_ranges(1); // @unwind=20 bounded=1
    c05_vec_writeall => vec_ranges(2); // @unwind=20 bounded=1
    c05_vec_write => vec_ranges(3); // @unwind=20 bounded=1
    c05_vec_readexact => vec_ranges(4); // @unwind=20 bounded=1
    c05_vec_read => vec_ranges(5); // @unwind=20 bounded=1
    c05_vec_shrink => vec_shrink(); // @unwind=20 loops=extend_with:2
    c05_vec_grow => { vec_grow(3, 5); vec_grow(3, 3); vec_grow(0, 2); vec_grow(2, 3) }; // @unwind=20 bounded=1
    c05_vec_new => { vec_new(0); vec_new(3) }; // @unwind=20 bounded=1
    c05_paged_new => { paged_new(0, 1); paged_new(5, 1); paged_new(4, 2) }; // @unwind=20 bounded=1
    c05_paged_fill => paged_ranges(1, 0); // @unwind=14 bounded=1 loops=4fill.:5,extend_with:4
    c05_paged_writeall => paged_ranges(1, 2); // @unwind=14 bounded=1 loops=9write_all:5,extend_with:4
    c05_paged_write => paged_ranges(1, 3); // @unwind=20 bounded=1
    c05_paged_readexact => paged_ranges(1, 4); // @unwind=14 bounded=1 loops=10read_exact:5
    c05_paged_read => paged_ranges(1, 5); // @unwind=20 bounded=1
    c05_paged_grow => { paged_grow(3, 4); paged_grow(3, 8); paged_grow(4, 5); paged_grow(4, 3); paged_grow(4, 4) }; // @unwind=14 bounded=1
    c05_paged_rd => paged_fixed(2, false); // @unwind=14 bounded=1 loops=10read_exact:4
    c05_paged_wr => paged_fixed(2, true); // @unwind=14 bounded=1 loops=9write_all:4,extend_with:6
    c05_dflt_read8 => dflt_read(1); // @unwind=20
    c05_dflt_read16 => dflt_read(2); // @unwind=20
    c05_dflt_read32 => dflt_read(4); // @unwind=20
    c05_dflt_read64 => dflt_read(8); // @unwind=20
    c05_dflt_read128 => dflt_read(16); // @unwind=20 tier=thorough
    c05_dflt_write8 => dflt_write(1); // @unwind=20
    c05_dflt_write16 => dflt_write(2); // @unwind=20
    c05_dflt_write32 => dflt_write(4); // @unwind=20
    c05_dflt_write64 => dflt_write(8); // @unwind=20 tier=thorough
    c05_dflt_write128 => dflt_write(16); // @unwind=20 tier=thorough
    c05_dflt_readexact => dflt_range(0); // @unwind=20 bounded=1 loops=10read_exact:4,9write_all:4,4fill:3,11copy_within:3
    c05_dflt_writeall => dflt_range(1); // @unwind=20 bounded=1 loops=10read_exact:4,9write_all:4,4fill:3,11copy_within:3
    c05_dflt_fill => dflt_range(2); // @unwind=20 bounded=1 loops=10read_exact:4,9write_all:4,4fill:3,11copy_within:3
    c05_dflt_copy => dflt_range(3); // @unwind=20 bounded=1 loops=10read_exact:3,9write_all:3,4fill:2,11copy_within:2
    c05_lazy_grow => lazy(0, true); // @unwind=20
    c05_lazy_writeall => lazy(1, true); // @unwind=20
    c05_lazy_fill => lazy(2, true); // @unwind=20
    c05_lazy_copy => lazy(3, true); // @unwind=20
    c05_lazy_write => lazy(4, true); // @unwind=20
    c05_lazy_read => lazy(5, true); // @unwind=20
    c05_lazy_grow_0 => lazy(0, false); // @unwind=20
    c05_lazy_writeall_0 => lazy(1, false); // @unwind=20
    c05_lazy_fill_0 => lazy(2, false); // @unwind=20
    c05_lazy_copy_0 => lazy(3, false); // @unwind=20
    c05_lazy_write_0 => lazy(4, false); // @unwind=20
    c05_lazy_read_0 => lazy(5, false); // @unwind=20
}
