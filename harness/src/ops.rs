//! C01, C02: every scalar numeric instruction against the specification tables.
use crate::mach::*;
#[cfg(not(kani))] use crate::kani;
macro_rules! op {
    ($m:ident, $g:ident, $name:ident, ($($a:ident : $t:ty),*), ($($r:ty),*)) => {{
        $m.clear();
        let sent_ = Sent::put(&mut $m);
        $( let $a = <$t as Opd>::any(); )*
        $( $a.push(&mut $m); )*
        let out = $m.exec::<x::$g>(Instruction::$name);
        match spec::ops::$name($($a),*) {
            Ok(want) => {
                let want: ($($r),*) = want;
                assert!(out == Out::Next && $m.r.ip == 1, concat!("contract ", stringify!($name), ": completes"));
                let n = x::lens(&$m.s);
                assert!(n[0] == 1 + <($($r),*) as Res>::n(0) && n[1] == 1 + <($($r),*) as Res>::n(1) && n[2] == 1, concat!("contract ", stringify!($name), ": stack effect"));
                assert!(want.ok(&$m, [1, 1, 1]), concat!("contract ", stringify!($name), ": result"));
            }
            Err(t) => assert!(out == Out::Trap(trap_of(t)), concat!("contract ", stringify!($name), ": traps as specified")),
        }
        assert!(sent_.intact(&$m), concat!("contract ", stringify!($name), ": rest of the stack unchanged"));
    }};
}
macro_rules! vop {
    ($m:ident, $g:ident, $name:ident, ($($a:ident : $t:ty),*), $r:ty, $k:ident) => {{
        $m.clear();
        let sent_ = Sent::put(&mut $m);
        $( let $a = <$t as Opd>::any(); )*
        $( $a.push(&mut $m); )*
        let out = $m.exec::<x::$g>(Instruction::$name);
        let want: $r = spec::simd::$name($($a),*);
        assert!(out == Out::Next && $m.r.ip == 1, concat!("contract ", stringify!($name), ": completes"));
        let n = x::lens(&$m.s);
        assert!(n[0] == 1 + <$r as Res>::n(0) && n[1] == 1 + <$r as Res>::n(1) && n[2] == 1 + <$r as Res>::n(2), concat!("contract ", stringify!($name), ": stack effect"));
        assert!(vres::$k(want, &$m), concat!("contract ", stringify!($name), ": result"));
        assert!(sent_.intact(&$m), concat!("contract ", stringify!($name), ": rest of the stack unchanged"));
    }};
}
#[allow(non_snake_case)]
mod vres {
    use crate::mach::*;
    pub fn Bits<T: Res>(w: T, m: &M) -> bool { w.ok(m, [1, 1, 1]) }
    pub fn F32x4(w: V128, m: &M) -> bool { let (w, g) = (spec::simd::u32x4(w), spec::simd::u32x4(V128::at(m, 1))); let mut ok = true; let mut i = 0; while i < 4 { ok &= F32(w[i]).allows_any_nan(F32(g[i])); i += 1; } ok }
    pub fn F64x2(w: V128, m: &M) -> bool { let (w, g) = (spec::simd::u64x2(w), spec::simd::u64x2(V128::at(m, 1))); let mut ok = true; let mut i = 0; while i < 2 { ok &= F64(w[i]).allows_any_nan(F64(g[i])); i += 1; } ok }
}
include!(concat!(env!("TINYWASM_VERIF_HOOKS"), "/gen.rs"));
