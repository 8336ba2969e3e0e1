// included in tinywasm's interpreter/stack/value_stack.rs
/// makes a vector of `len` arbitrary cells with room for `cap` (in the harness: this crate forbids unsafe code)
pub trait Mk { fn mk<T: Copy + Default>(len: usize, cap: usize) -> Vec<T>; }
pub fn make<K: Mk>(s: &mut crate::Store, len: [usize; 3], cap: [usize; 3], max: [usize; 3], dynamic: bool) {
    core::mem::forget(core::mem::replace(&mut s.value_stack, ValueStack {
        stack_32: Stack { data: K::mk(len[0], cap[0]), max_size: max[0], dynamic },
        stack_64: Stack { data: K::mk(len[1], cap[1]), max_size: max[1], dynamic },
        stack_128: Stack { data: K::mk(len[2], cap[2]), max_size: max[2], dynamic },
    }));
}
pub fn set32(s: &mut crate::Store, i: usize, v: u32) { s.value_stack.stack_32.data[i] = v }
pub fn set64(s: &mut crate::Store, i: usize, v: u64) { s.value_stack.stack_64.data[i] = v }
pub fn set128(s: &mut crate::Store, i: usize, v: [u8; 16]) { s.value_stack.stack_128.data[i] = Value128(v) }
use super::super::verif::call_stack::OwnLen;
/// the stacks are the first `len` cells of the given arrays, with room for all of them
pub fn own<K: OwnLen>(s: &mut crate::Store, a: &mut [u32], b: &mut [u64], c: &mut [[u8; 16]], len: [usize; 3], max: [usize; 3], dynamic: bool) {
    core::mem::forget(core::mem::replace(&mut s.value_stack, ValueStack {
        stack_32: Stack { data: K::vec_len(a, len[0]), max_size: max[0], dynamic },
        stack_64: Stack { data: K::vec_len(b, len[1]), max_size: max[1], dynamic },
        stack_128: Stack { data: K::vec_len(c, len[2]), max_size: max[2], dynamic },
    }));
}
pub fn caps(s: &crate::Store) -> [usize; 3] { let v = &s.value_stack; [v.stack_32.data.capacity(), v.stack_64.data.capacity(), v.stack_128.data.capacity()] }
