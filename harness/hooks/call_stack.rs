// included in tinywasm's interpreter/stack/call_stack.rs
#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct Frame { pub ip: usize, pub func_addr: u32, pub base: [u32; 3], pub off: ValueCounts }
fn cf(f: Frame) -> CallFrame { CallFrame { instr_ptr: f.ip, func_addr: f.func_addr, locals_base: StackBase { s32: f.base[0], s64: f.base[1], s128: f.base[2] }, stack_offset: f.off } }
#[repr(transparent)] pub struct Fr(CallFrame);
impl Fr {
    pub fn new(f: Frame) -> Fr { Fr(cf(f)) }
    pub fn get(&self) -> Frame { let c = &self.0; Frame { ip: c.instr_ptr, func_addr: c.func_addr, base: [c.locals_base.s32, c.locals_base.s64, c.locals_base.s128], off: c.stack_offset } }
}
pub trait OwnLen { fn vec_len<A, T>(a: &mut [A], len: usize) -> Vec<T>; }
/// the call stack is the first `len` frames of `a`, with room for all of it
pub fn own_frames<K: OwnLen>(s: &mut crate::Store, a: &mut [Fr], len: usize, max_size: usize, dynamic: bool) {
    core::mem::forget(core::mem::replace(&mut s.call_stack, CallStack { stack: K::vec_len(a, len), max_size, dynamic }))
}
pub fn depth(s: &crate::Store) -> usize { s.call_stack.stack.len() }
pub fn frame(s: &crate::Store, i: usize) -> Frame { let c = &s.call_stack.stack[i]; Frame { ip: c.instr_ptr, func_addr: c.func_addr, base: [c.locals_base.s32, c.locals_base.s64, c.locals_base.s128], off: c.stack_offset } }
/// `len` empty frames on the heap, with room for `cap`
pub fn heap_frames(s: &mut crate::Store, len: usize, cap: usize, max_size: usize) {
    let mut v = Vec::with_capacity(cap);
    let mut i = 0; while i < len { v.push(cf(Frame::default())); i += 1 }
    core::mem::forget(core::mem::replace(&mut s.call_stack, CallStack { stack: v, max_size, dynamic: true }))
}
pub fn cap(s: &crate::Store) -> usize { s.call_stack.stack.capacity() }
