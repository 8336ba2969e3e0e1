// included in tinywasm's instance.rs
/// A module instance whose address tables are the given ones (everything the executor reads of it), together with
/// the counters of the `Rc` it stands in.
#[repr(C)]
pub struct Inst { strong: usize, weak: usize, inner: ModuleInstanceInner }
pub trait RcOf { fn rc<T>(v: &T) -> Rc<T>; }
pub fn inst(store: &Store, idx: u32, types: Arc<[Arc<FuncType>]>, addrs: [Box<[u32]>; 6]) -> Inst {
    let [func_addrs, table_addrs, mem_addrs, global_addrs, elem_addrs, data_addrs] = addrs;
    Inst { strong: 10, weak: 10, inner: ModuleInstanceInner {
        store_id: store.id(), idx, types, func_type_idxs: Arc::new([]), func_addrs, table_addrs, mem_addrs,
        global_addrs, elem_addrs, data_addrs, func_start: None, exports: Arc::new([]),
    } }
}
pub fn of<K: RcOf>(i: &Inst) -> ModuleInstance { ModuleInstance(K::rc(&i.inner)) }
