//! Native replay of a counterexample: `any` yields the verifier's values in order.
use std::cell::RefCell;
thread_local! { static V: RefCell<std::collections::VecDeque<Vec<u8>>> = Default::default(); }
pub fn load(vals: Vec<Vec<u8>>) { V.with(|v| *v.borrow_mut() = vals.into()) }
pub trait Arbitrary: Sized { fn any() -> Self; }
// the values end where the obligation fails in the verifier's run: asking for more means it held here
pub fn raw(n: usize) -> Vec<u8> { V.with(|v| v.borrow_mut().pop_front().or_else(|| { println!("REPLAY-PASSES"); std::process::exit(0) })).filter(|b| b.len() == n).unwrap_or_else(|| { println!("REPLAY-DIVERGED"); std::process::exit(3) }) }
macro_rules! ints { ($($t:ty)*) => { $( impl Arbitrary for $t { fn any() -> Self { <$t>::from_le_bytes(raw(size_of::<$t>()).try_into().unwrap()) } } )* } }
ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
impl Arbitrary for bool { fn any() -> Self { raw(1)[0] & 1 == 1 } }
pub fn any<T: Arbitrary>() -> T { T::any() }
pub fn assume(c: bool) { if !c { println!("REPLAY-ASSUMPTION-FAILS"); std::process::exit(3) } }
