// included in tinywasm's store/memory/vec.rs
pub trait Bytes { fn any(len: usize) -> Vec<u8>; }
pub fn make(data: Vec<u8>) -> VecMemory { VecMemory { data } }
pub fn get(m: &VecMemory, i: usize) -> u8 { m.data[i] }
pub fn set(m: &mut VecMemory, i: usize, v: u8) { m.data[i] = v }
