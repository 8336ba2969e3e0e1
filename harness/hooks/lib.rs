// included at the crate root of tinywasm: read-only views of crate-private state
pub use crate::store::{LinearMemory};
