// included in tinywasm's imports.rs
pub fn memory(i: &Import, offered: &MemoryType, required: &MemoryType, pages: usize) -> Result<()> { Imports::compare_memory_types(i, offered, required, pages) }
pub fn table(i: &Import, offered: &TableType, required: &TableType) -> Result<()> { Imports::compare_table_types(i, offered, required) }
pub fn same<T: PartialEq>(i: &Import, offered: &T, required: &T) -> Result<()> { Imports::compare_types(i, offered, required) }
