//! C16: the comparisons that decide whether an offered import satisfies the required one, for all types.
use crate::mach::*;
#[cfg(not(kani))] use crate::kani;
use tinywasm::verif::imports as im;
fn any_ty() -> WasmType { match kani::any::<u8>() % 7 { 0 => WasmType::I32, 1 => WasmType::I64, 2 => WasmType::F32, 3 => WasmType::F64, 4 => WasmType::V128, 5 => WasmType::RefFunc, _ => WasmType::RefExtern } }
fn opt() -> Option<u64> { if kani::any() { Some(kani::any()) } else { None } }
fn import(kind: ImportKind) -> Import { Import { module: "m".into(), name: "n".into(), kind } }
fn verdict(r: tinywasm::Result<()>, want: bool) {
    assert!(r.is_ok() == want, "accepted exactly if compatible");
    assert!(r.is_ok() || matches!(&r, Err(tinywasm::Error::Linker(tinywasm::LinkingError::IncompatibleImportType { .. }))), "rejected with a linking error");
    core::mem::forget(r);
}
/// a memory type the validator accepts
fn memty(is64: bool) -> MemoryType {
    let ps = match kani::any::<u8>() % 3 { 0 => None, 1 => Some(1), _ => Some(65536) };
    let lim: u64 = match (is64, ps == Some(1)) { (false, false) => 1 << 16, (false, true) => 1 << 32, (true, false) => 1 << 48, (true, true) => u64::MAX };
    let (min, max) = (kani::any::<u64>(), opt());
    kani::assume(min <= lim && match max { Some(m) => m <= lim && min <= m, None => true });
    MemoryType::new(if is64 { MemoryArch::I64 } else { MemoryArch::I32 }, min, max, ps)
}
pub fn memory() {
    let (a, b): (bool, bool) = (kani::any(), kani::any()); let (off, req) = (memty(a), memty(b));
    // the current size is at least the initial one, and within the maximum
    let pages = kani::any::<u64>() as usize; kani::assume(pages as u64 >= off.page_count_initial() && pages as u64 <= off.page_count_max());
    let want = a == b && off.page_size() == req.page_size() && pages as u64 >= req.page_count_initial()
        && match (req.declared_page_count_max(), off.declared_page_count_max()) { (None, _) => true, (Some(_), None) => false, (Some(r), Some(o)) => o <= r };
    let i = import(ImportKind::Memory(req));
    verdict(im::memory(&i, &off, &req, pages), want);
    core::mem::forget(i);
}
pub fn table() {
    let (a, b): (bool, bool) = (kani::any(), kani::any());
    let mk = |is64: bool| { let (t, n, m) = (any_ty(), kani::any(), opt()); if is64 { TableType::new64(t, n, m) } else { TableType::new(t, n, m) } };
    // the offered type's initial size is the table's current size
    let (off, req) = (mk(a), mk(b));
    let want = a == b && off.element_type == req.element_type && off.size_initial >= req.size_initial
        && match (req.size_max, off.size_max) { (None, _) => true, (Some(_), None) => false, (Some(r), Some(o)) => o <= r };
    let i = import(ImportKind::Table(req));
    verdict(im::table(&i, &off, &req), want);
    core::mem::forget(i);
}
pub fn global() {
    let (a, b) = (any_ty(), any_ty()); let (m, n): (bool, bool) = (kani::any(), kani::any());
    let (off, req) = (GlobalType::new(a, m), GlobalType::new(b, n));
    let i = import(ImportKind::Global(req));
    verdict(im::same(&i, &off, &req), a as u8 == b as u8 && m == n);
    core::mem::forget(i);
}
entries! { LINK :
    c16_memory => memory(); // @unwind=10
    c16_table => table(); // @unwind=10
    c16_global => global(); // @unwind=10
}
