// included in tinywasm's store/memory/lazy.rs
pub fn make(ty: MemoryType, initial_len: usize, backend: MemoryBackend, inner: Option<Box<dyn LinearMemory>>) -> LazyLinearMemory { LazyLinearMemory { ty, initial_len, backend, inner } }
pub fn materialized(m: &LazyLinearMemory) -> bool { m.inner.is_some() }
