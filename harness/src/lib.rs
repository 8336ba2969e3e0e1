//! Contracts on the real interpreter, discharged by Kani/CBMC. Every entry point drives the compiled code of
//! /repo over fully symbolic operands and stack contents and asserts the specification's postcondition: result,
//! operands consumed, traps, everything else unchanged. The same entry points, compiled without Kani, replay a
//! counterexample natively (`kani::any` then reads the verifier's values).
#![allow(non_snake_case, non_camel_case_types, unused, unexpected_cfgs)]
extern crate alloc;
#[cfg(not(kani))] #[path = "shim.rs"] pub mod kani;
mod mach;
/// `entries! { name => expression; ... }`: one verification entry point each
/// `entries! { name => expression; ... }`: one verification entry point each
#[macro_export]
macro_rules! entries { ($list:ident : $($n:ident => $e:expr;)*) => {
    $( #[unsafe(no_mangle)] pub extern "C" fn $n() { $e } )*
} }
/// declares a group of instructions (read by tools/gen_harness.py); expands to nothing
#[macro_export] macro_rules! group { ($($t:tt)*) => {} }
mod ops;
mod frame;
mod fused;
mod ghost;
mod memops;
use memops::*;
mod membulk;
use membulk::*;
mod tables;
use tables::*;
mod globals;
mod lanes;
use lanes::*;
mod fusedmem;
use fusedmem::*;
mod limits;
use limits::*;
mod calls;
use calls::*;
mod control;
use control::*;
use globals::*;
use fused::*;
use ops::*;
// the entry points reachable for Kani's code generation; each is then verified as its own entry function

include!(concat!(env!("TINYWASM_VERIF_HOOKS"), "/all.rs"));
