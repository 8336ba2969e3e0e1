// included in tinywasm's store/mod.rs: gives a store the objects a contract talks about
pub use super::memory::LinearMemory;
/// vectors over the harness's own memory: of arrays whose elements are `#[repr(transparent)]` wrappers of the
/// vector's, and of `len` elements that are arbitrary under Kani and `v` natively
pub trait Own { fn vec<A, T>(a: &mut [A]) -> Vec<T>; fn any<T: Copy>(v: T, len: usize) -> Vec<T>; }
#[repr(transparent)] pub struct Mem(MemoryInstance);
pub fn memory(kind: MemoryType, inner: alloc::boxed::Box<dyn LinearMemory>, page_count: usize) -> Mem { Mem(MemoryInstance { kind, inner, page_count }) }
pub fn own_mems<K: Own>(s: &mut Store, a: &mut [Mem]) { core::mem::forget(core::mem::replace(&mut s.state.memories, K::vec(a))) }
pub fn config(s: &Store) -> &crate::engine::Config { s.engine.config() }
pub fn pages(s: &Store, i: usize) -> usize { s.state.memories[i].page_count }
fn te(v: Option<u32>) -> TableElement { match v { Some(v) => TableElement::Initialized(v), None => TableElement::Uninitialized } }
fn et(v: &TableElement) -> Option<u32> { match v { TableElement::Initialized(v) => Some(*v), TableElement::Uninitialized => None } }
#[repr(transparent)] pub struct Tab(TableInstance);
impl Tab {
    pub fn new<K: Own>(kind: TableType, len: usize) -> Tab { Tab(TableInstance { elements: K::any(TableElement::Uninitialized, len), kind }) }
    pub fn set(&mut self, i: usize, v: Option<u32>) { self.0.elements[i] = te(v) }
    pub fn get(&self, i: usize) -> Option<u32> { et(&self.0.elements[i]) }
    pub fn len(&self) -> usize { self.0.elements.len() }
}
pub fn own_tabs<K: Own>(s: &mut Store, a: &mut [Tab]) { core::mem::forget(core::mem::replace(&mut s.state.tables, K::vec(a))) }
#[repr(transparent)] pub struct Elem(ElementInstance);
impl Elem {
    pub fn new<K: Own>(len: Option<usize>) -> Elem { Elem(ElementInstance { items: match len { Some(n) => Some(K::any(TableElement::Uninitialized, n)), None => None } }) }
    pub fn set(&mut self, i: usize, v: Option<u32>) { if let Some(d) = &mut self.0.items { d[i] = te(v) } }
    pub fn len(&self) -> Option<usize> { self.0.items.as_ref().map(|d| d.len()) }
}
pub fn own_elems<K: Own>(s: &mut Store, a: &mut [Elem]) { core::mem::forget(core::mem::replace(&mut s.state.elements, K::vec(a))) }
#[repr(transparent)] pub struct Dat(DataInstance);
impl Dat {
    pub fn new<K: Own>(len: Option<usize>) -> Dat { Dat(DataInstance { data: match len { Some(n) => Some(K::any(0, n)), None => None } }) }
    pub fn set(&mut self, i: usize, v: u8) { if let Some(d) = &mut self.0.data { d[i] = v } }
    pub fn len(&self) -> Option<usize> { self.0.data.as_ref().map(|d| d.len()) }
}
pub fn own_datas<K: Own>(s: &mut Store, a: &mut [Dat]) { core::mem::forget(core::mem::replace(&mut s.state.data, K::vec(a))) }
#[repr(transparent)] pub struct Glob(GlobalInstance);
/// a global's value, by the class of its type
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Val { V32(u32), V64(u64), V128([u8; 16]), Ref(u32) }
impl Glob {
    pub fn new(ty: GlobalType, v: Val) -> Glob { Glob(GlobalInstance::new(ty, match v { Val::V32(v) => TinyWasmValue::Value32(v), Val::V64(v) => TinyWasmValue::Value64(v), Val::V128(v) => TinyWasmValue::Value128(v.into()), Val::Ref(v) => TinyWasmValue::ValueRef(ValueRef::from_raw(v)) })) }
    pub fn get(&self) -> Val { match self.0.value { TinyWasmValue::Value32(v) => Val::V32(v), TinyWasmValue::Value64(v) => Val::V64(v), TinyWasmValue::Value128(v) => Val::V128(i128::from(v).to_le_bytes()), TinyWasmValue::ValueRef(v) => Val::Ref(v.raw()) } }
    pub fn ty(&self) -> GlobalType { self.0.ty }
}
pub fn own_globs<K: Own>(s: &mut Store, a: &mut [Glob]) { core::mem::forget(core::mem::replace(&mut s.state.globals, K::vec(a))) }
#[repr(transparent)] pub struct Fun(FunctionInstance);
impl Fun { pub fn wasm(func: Arc<WasmFunction>, owner: u32) -> Fun { Fun(FunctionInstance::Wasm(WasmFunctionInstance { func, owner })) } }
pub fn own_funs<K: Own>(s: &mut Store, a: &mut [Fun]) { core::mem::forget(core::mem::replace(&mut s.state.funcs, K::vec(a))) }
pub fn own_modules<K: Own>(s: &mut Store, a: &mut [ModuleInstance]) { core::mem::forget(core::mem::replace(&mut s.module_instances, K::vec(a))) }
