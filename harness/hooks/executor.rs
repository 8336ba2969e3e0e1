// included in tinywasm's interpreter/executor.rs: runs exactly one instruction of the real executor
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Regs { pub ip: usize, pub func_addr: u32, pub base: [u32; 3], pub off: ValueCounts, pub call_base: u32,
    /// afterwards: the module instance
    pub module: u32 }
impl Regs { pub fn new(off: ValueCounts) -> Self { Regs { ip: 0, func_addr: 0, base: [0; 3], off, call_base: 0, module: 0 } } }
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Out { Next, Done, Trap(u8) }
pub const T_UNREACHABLE: u8 = 1;
pub const T_DIV0: u8 = 2;
pub const T_INTOVF: u8 = 3;
pub const T_BADCONV: u8 = 4;
pub const T_MEMOOB: u8 = 5;
pub const T_TABOOB: u8 = 6;
pub const T_VSTACK: u8 = 7;
pub const T_CSTACK: u8 = 8;
pub const T_UNDEFEL: u8 = 9;
pub const T_UNINITEL: u8 = 10;
pub const T_INDIRTY: u8 = 11;
fn code(t: &Trap) -> u8 {
    match t {
        Trap::Unreachable => T_UNREACHABLE, Trap::DivisionByZero => T_DIV0, Trap::IntegerOverflow => T_INTOVF, Trap::InvalidConversionToInt => T_BADCONV,
        Trap::MemoryOutOfBounds { .. } => T_MEMOOB, Trap::TableOutOfBounds { .. } => T_TABOOB, Trap::ValueStackOverflow => T_VSTACK, Trap::CallStackOverflow => T_CSTACK,
        Trap::UndefinedElement { .. } => T_UNDEFEL, Trap::UninitializedElement { .. } => T_UNINITEL, Trap::IndirectCallTypeMismatch { .. } => T_INDIRTY, _ => 99,
    }
}
/// `exec` restricted to a group of instructions (generated), or the whole of it
pub trait Group { fn run<const B: bool>(ex: &mut Executor<'_, B>) -> Result<Option<()>, Trap>; }
pub struct Whole;
impl Group for Whole { fn run<const B: bool>(ex: &mut Executor<'_, B>) -> Result<Option<()>, Trap> { ex.exec() } }
pub fn step<G: Group, const B: bool>(store: &mut Store, func: Arc<WasmFunction>, module: ModuleInstance, r: &mut Regs) -> (Out, *const WasmFunction) {
    let lb = super::super::stack::StackBase { s32: r.base[0], s64: r.base[1], s128: r.base[2] };
    let cf = CallFrame { instr_ptr: r.ip, func_addr: r.func_addr, locals_base: lb, stack_offset: r.off };
    let mut ex = Executor::<'_, B> { cf, func, module, store, call_stack_base: r.call_base };
    let res = G::run(&mut ex);
    let out = match &res { Ok(None) => Out::Next, Ok(Some(())) => Out::Done, Err(t) => Out::Trap(code(t)) };
    core::mem::forget(res);
    let c = ex.cf;
    *r = Regs { ip: c.instr_ptr, func_addr: c.func_addr, base: [c.locals_base.s32, c.locals_base.s64, c.locals_base.s128], off: c.stack_offset, call_base: ex.call_stack_base, module: ex.module.idx() };
    let f = Arc::as_ptr(&ex.func);
    core::mem::forget(ex);
    (out, f)
}
pub fn clear(s: &mut Store) { s.value_stack.clear(); s.call_stack.clear(); }
pub fn push32(s: &mut Store, v: u32) { if s.value_stack.stack_32.push(v).is_err() { panic!("harness: stack capacity") } }
pub fn push64(s: &mut Store, v: u64) { if s.value_stack.stack_64.push(v).is_err() { panic!("harness: stack capacity") } }
pub fn push128(s: &mut Store, v: [u8; 16]) { if s.value_stack.stack_128.push(Value128(v)).is_err() { panic!("harness: stack capacity") } }
pub fn lens(s: &Store) -> [usize; 3] { [s.value_stack.stack_32.len(), s.value_stack.stack_64.len(), s.value_stack.stack_128.len()] }
pub fn get32(s: &Store, i: usize) -> u32 { *s.value_stack.stack_32.get(i) }
pub fn get64(s: &Store, i: usize) -> u64 { *s.value_stack.stack_64.get(i) }
pub fn get128(s: &Store, i: usize) -> [u8; 16] { s.value_stack.stack_128.get(i).0 }
pub fn call_depth(s: &Store) -> u32 { s.call_stack.len() }
