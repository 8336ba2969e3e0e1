// included in tinywasm's store/memory/paged.rs
pub fn make(len: usize, shift: u32, chunks: Vec<Option<Box<[u8]>>>) -> PagedMemory { PagedMemory { len, chunk_size: 1 << shift, chunk_shift: shift, chunk_mask: (1 << shift) - 1, chunks } }
/// the representation invariant, and the byte it stands for at each address
pub fn ok(m: &PagedMemory) -> bool { m.chunk_size == 1 << m.chunk_shift && m.chunk_mask == m.chunk_size - 1 && m.chunks.len() == m.len.div_ceil(m.chunk_size) }
pub fn get(m: &PagedMemory, i: usize) -> u8 { match &m.chunks[i / m.chunk_size] { Some(c) => c[i % m.chunk_size], None => 0 } }
