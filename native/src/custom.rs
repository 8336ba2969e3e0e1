//! Checks that are not a plain comparison with the reference semantics.
use crate::checks::{Verdict, diff_sc, et, profile, rcfg};
use crate::pgen::{self, Prof, Rng, ScenOpts, rint, rval, scenario};
use crate::refint::{GlobTy, MemTy, Sig, TabTy, Trap};
use crate::world::{self, Act, Arg, Cfg, Mode, Obs, RWorld, Scenario, TWorld, panic_msg, tval, wty, wval};
use spec::{Ty, V128, Val};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;
use tinywasm::engine::{Config, FuelPolicy, StackConfig};
use tinywasm::types::{ExportType, FuncType, GlobalType, ImportType, MemoryType, TableType, WasmValue};
use tinywasm::{Engine, Error, ExecProgress, Extern, FuncContext, Function, Global, HostFunction, Imports, Memory, ModuleInstance, Store, Table};
use wasm_encoder as we;
use wasm_encoder::{BlockType, Instruction as I};

fn guard(v: &mut Verdict, what: &str, f: impl FnOnce(&mut Verdict) -> Result<(), String>) {
    let r = catch_unwind(AssertUnwindSafe(|| f(v)));
    match r { Ok(Ok(())) => {} Ok(Err(e)) => v.fail = Some(format!("{what}: {e}")), Err(p) => v.fail = Some(format!("{what}: host panic: {}", panic_msg(p))) }
}
fn func(params: &[Ty], results: &[Ty], locals: &[Ty], body: &[I<'static>]) -> (Sig, Vec<Ty>, Vec<I<'static>>) { (Sig { p: params.to_vec(), r: results.to_vec() }, locals.to_vec(), body.to_vec()) }
/// function k is exported as f{k}; imports come first in the index space
fn module(imports: &[Sig], funcs: &[(Sig, Vec<Ty>, Vec<I<'static>>)], globals: &[(Ty, Val)], table: bool) -> Rc<Vec<u8>> {
    let (mut t, mut im, mut fs, mut ex, mut co, mut gs) = (we::TypeSection::new(), we::ImportSection::new(), we::FunctionSection::new(), we::ExportSection::new(), we::CodeSection::new(), we::GlobalSection::new());
    for (k, s) in imports.iter().enumerate() { t.ty().function(s.p.iter().map(|x| et(*x)), s.r.iter().map(|x| et(*x))); im.import("h", &format!("h{k}"), we::EntityType::Function(k as u32)); }
    let n = imports.len() as u32;
    for (k, (s, l, b)) in funcs.iter().enumerate() {
        let k = k as u32 + n;
        t.ty().function(s.p.iter().map(|x| et(*x)), s.r.iter().map(|x| et(*x)));
        fs.function(k);
        ex.export(&format!("f{}", k - n), we::ExportKind::Func, k);
        let mut f = we::Function::new_with_locals_types(l.iter().map(|x| et(*x)));
        for i in b { f.instruction(i); }
        f.instruction(&I::End);
        co.function(&f);
    }
    for (k, (ty, v)) in globals.iter().enumerate() {
        let c = match v { Val::I32(x) => we::ConstExpr::i32_const(*x as i32), Val::I64(x) => we::ConstExpr::i64_const(*x as i64), _ => panic!() };
        gs.global(we::GlobalType { val_type: et(*ty), mutable: true, shared: false }, &c);
        ex.export(&format!("g{k}"), we::ExportKind::Global, k as u32);
    }
    let mut m = we::Module::new();
    m.section(&t); if n > 0 { m.section(&im); } m.section(&fs);
    if table { let mut ts = we::TableSection::new(); ts.table(we::TableType { element_type: we::RefType::FUNCREF, table64: false, minimum: 4, maximum: Some(4), shared: false }); m.section(&ts); ex.export("t0", we::ExportKind::Table, 0); }
    m.section(&gs).section(&ex);
    if table { let mut es = we::ElementSection::new(); let c = we::ConstExpr::i32_const(0); es.active(None, &c, we::Elements::Functions(vec![n].into())); m.section(&es); }
    m.section(&co);
    Rc::new(m.finish())
}

// ---------------------------------------------------------------- relaxed SIMD: one of the permitted results
pub fn relaxed(r: &mut Rng) -> Verdict {
    use spec::simd::relaxed as q;
    let mut v = Verdict::default();
    type P = (&'static str, I<'static>, usize, fn(&[V128], V128) -> bool);
    let mut ops: Vec<P> = vec![];
    macro_rules! one { ($($n:ident)*) => { $( ops.push((stringify!($n), I::$n, 1, |a, g| q::$n(a[0], g))); )* } }
    macro_rules! two { ($($n:ident)*) => { $( ops.push((stringify!($n), I::$n, 2, |a, g| q::$n(a[0], a[1], g))); )* } }
    macro_rules! three { ($($n:ident)*) => { $( ops.push((stringify!($n), I::$n, 3, |a, g| q::$n(a[0], a[1], a[2], g))); )* } }
    spec::relaxed1_ops!(one); spec::relaxed2_ops!(two); spec::relaxed3_ops!(three);
    let fs: Vec<_> = ops.iter().map(|o| { let mut b: Vec<I<'static>> = (0..o.2 as u32).map(I::LocalGet).collect(); b.push(o.1.clone()); func(&vec![Ty::V128; o.2], &[Ty::V128], &[], &b) }).collect();
    let m = module(&[], &fs, &[], false);
    v.modules.push(m.clone());
    guard(&mut v, "relaxed simd", |v| {
        let md = tinywasm::parse_bytes(&m).map_err(|e| format!("{e:?}"))?;
        let mut s = Store::default();
        let i = ModuleInstance::instantiate(&mut s, &md, None).map_err(|e| format!("{e:?}"))?;
        for (k, o) in ops.iter().enumerate() {
            let f = i.func_untyped(&s, &format!("f{k}")).map_err(|e| format!("{e:?}"))?;
            for _ in 0..6 {
                let a: Vec<V128> = (0..o.2).map(|_| { let Val::V(x) = rval(r, Ty::V128) else { panic!() }; x }).collect();
                let w: Vec<WasmValue> = a.iter().map(|x| WasmValue::V128(x.0)).collect();
                let g = |s: &mut Store| -> Result<V128, String> { match f.call(s, &w) { Ok(x) if x.len() == 1 => match x[0] { WasmValue::V128(b) => Ok(V128(b)), ref o => Err(format!("{o:?}")) }, o => Err(format!("{o:?}")) } };
                let (x, y) = (g(&mut s)?, g(&mut s)?);
                if !(o.3)(&a, x) { return Err(format!("{} of {a:?} gives {x:?}, not a permitted result", o.0)) }
                if x != y { return Err(format!("{} of {a:?} gives {x:?} and then {y:?}", o.0)) }
                v.compared += 1;
            }
            *v.cover.entry(o.0.to_string()).or_default() += 6;
        }
        Ok(())
    });
    v
}

// ---------------------------------------------------------------- stack limits
fn observe(sc: &Scenario, cfg: &Cfg) -> (Vec<Obs>, Option<String>) {
    // run tinywasm alone, feeding it the reference's concrete arguments
    let rw = RWorld::new(sc);
    let mut out = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
        let mut tw = TWorld::new(sc, cfg)?;
        for a in &sc.acts { let vals = world::act_vals(&rw, a); out.push(tw.act(a, &vals)); }
        Ok(())
    }));
    let f = match r { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) => Some(format!("host panic: {}", panic_msg(p))) };
    (out, f)
}
fn is_stack(o: &Obs) -> bool { *o == Obs::Trap(Trap::Stack) }
pub fn limits(r: &mut Rng) -> Verdict {
    match r.below(4) {
        0 => chain(r),
        1 => unbounded(r),
        _ => {
            // random programs: peak usage of the reference is enough; any smaller limit changes nothing or traps
            let (p, o, mut cfg) = profile("C12", r);
            let p = Prof { types: p.types.into_iter().filter(|t| *t != Ty::FuncRef).collect(), ..p };
            let mut sc = scenario(r, &p, &o);
            if crate::checks::over(&mut sc) { return Verdict { modules: sc.modules, ..Verdict::default() } }
            let mut v = Verdict { modules: sc.modules.clone(), note: format!("{:?}", sc.acts), ..Verdict::default() };
            let mut rw = RWorld::new(&sc);
            let mut want = vec![];
            for a in &sc.acts { let o = rw.act(a); rw.s.trace.clear(); if o == Obs::Budget { v.discarded = true; return v } want.push(o) }
            let pk = rw.s.peak;
            let dynamic = r.pct(50);
            let mk = |n: usize, d: bool| if d { StackConfig::dynamic(n.min(1), n) } else { StackConfig::fixed(n) };
            cfg.vs = Some([mk(pk.w32 + 8, dynamic), mk(pk.w64 + 8, dynamic), mk(pk.w128 + 8, dynamic)]);
            cfg.cs = Some(mk(pk.frames, dynamic));
            v.note = format!("{cfg:?} peak {pk:?} {}", v.note);
            let same = |a: &Obs, b: &Obs| match (a, b) { (Obs::Vals(x), Obs::Vals(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| matches!((x, y), (Val::FuncRef(Some(_)), Val::FuncRef(Some(_)))) || spec::same_val(*x, *y)), _ => a == b };
            let (got, f) = observe(&sc, &cfg);
            if let Some(f) = f { v.fail = Some(f); return v }
            for (i, (a, b)) in want.iter().zip(&got).enumerate() { v.compared += 1; if !same(a, b) { v.fail = Some(format!("limits just above the peak use, act {i} {}: reference {a:?} tinywasm {b:?}", world::show(&sc.acts[i]))); return v } }
            // now squeeze
            let sq = |r: &mut Rng, n: usize| if r.pct(40) { n } else { r.below(n + 1) };
            let (a, b, c, d) = (sq(r, pk.w32), sq(r, pk.w64), sq(r, pk.w128), sq(r, pk.frames));
            let fixed = Cfg { vs: Some([mk(a, false), mk(b, false), mk(c, false)]), cs: Some(mk(d, false)), ..cfg.clone() };
            let grow = Cfg { vs: Some([mk(a, true), mk(b, true), mk(c, true)]), cs: Some(mk(d, true)), ..cfg };
            let (x, f1) = observe(&sc, &fixed);
            let (y, f2) = observe(&sc, &grow);
            let (z, _) = observe(&sc, &fixed);
            v.note = format!("{fixed:?} {}", v.note);
            if let Some(f) = f1.or(f2) { v.fail = Some(format!("small limits: {f}")); return v }
            if x != z { v.fail = Some(format!("same limits, different runs: {x:?} {z:?}")); return v }
            if x != y { v.fail = Some(format!("fixed and growing stacks of the same maximum differ: {x:?} {y:?}")); return v }
            for (i, (a, b)) in want.iter().zip(&x).enumerate() {
                v.compared += 1;
                if is_stack(b) { *v.cover.entry("stack trap".into()).or_default() += 1; return v }
                if let Obs::Host(_) | Obs::Skip = b { if !same(a, b) { return v } }
                if !same(a, b) { v.fail = Some(format!("small limits, act {i} {}: reference {a:?} tinywasm {b:?}", world::show(&sc.acts[i]))); return v }
            }
            v
        }
    }
}
/// A call chain of known depth with known locals: the exact thresholds.
fn chain(r: &mut Rng) -> Verdict {
    let mut v = Verdict::default();
    let lanes = [Ty::I32, Ty::I64, Ty::V128];
    let nl: Vec<usize> = (0..3).map(|_| r.below(6)).collect();
    let mut locals = vec![]; for (k, n) in nl.iter().enumerate() { for _ in 0..*n { locals.push(lanes[k]) } }
    let depth = 1 + r.below(12) as u32;
    let kind = r.below(3); // direct self, through a second function, indirect
    // f0(n) = n == 0 ? 7 : f0(n - 1) + 1, with extra locals kept alive
    let mut b = vec![I::LocalGet(0), I::I32Eqz, I::If(BlockType::Result(we::ValType::I32)), I::I32Const(7), I::Else, I::LocalGet(0), I::I32Const(1), I::I32Sub];
    match kind { 0 => b.push(I::Call(0)), 1 => b.push(I::Call(1)), _ => { b.push(I::I32Const(0)); b.push(I::CallIndirect { type_index: 0, table_index: 0 }) } }
    b.extend([I::I32Const(1), I::I32Add, I::End]);
    let f0 = func(&[Ty::I32], &[Ty::I32], &locals, &b);
    let mut b1 = b.clone(); for i in &mut b1 { if let I::Call(x) = i { *x = 0 } }
    let f1 = func(&[Ty::I32], &[Ty::I32], &locals, &b1);
    let m = module(&[], &[f0, f1], &[], true);
    v.modules.push(m.clone());
    let frames = depth as usize; // callers' frames below the innermost one
    let need: Vec<usize> = (0..3).map(|k| (nl[k] + (k == 0) as usize) * (frames + 1)).collect();
    let dynamic = r.pct(50);
    v.note = format!("chain depth {depth} locals {nl:?} kind {kind} dynamic {dynamic}");
    guard(&mut v, "call chain", |v| {
        let md = tinywasm::parse_bytes(&m).map_err(|e| format!("{e:?}"))?;
        let mut run = |cs: usize, vs: [usize; 3]| -> Result<Obs, String> {
            let mk = |n: usize| if dynamic { StackConfig::dynamic(n.min(1), n) } else { StackConfig::fixed(n) };
            let c = Config::new().with_call_stack(mk(cs)).with_value_stack_32(mk(vs[0])).with_value_stack_64(mk(vs[1])).with_value_stack_128(mk(vs[2]));
            let mut s = Store::new(Engine::new(c));
            let i = ModuleInstance::instantiate(&mut s, &md, None).map_err(|e| format!("{e:?}"))?;
            let f = i.func_untyped(&s, "f0").map_err(|e| format!("{e:?}"))?;
            let o = match f.call(&mut s, &[WasmValue::I32(depth as i32)]) { Ok(x) => Obs::Vals(x.iter().map(tval).collect()), Err(e) => world::of_err(&e) };
            // the store stays usable
            if is_stack(&o) && cs > 0 && vs[0] > 6 + nl[0] && vs[1] >= nl[1] && vs[2] >= nl[2] { match f.call(&mut s, &[WasmValue::I32(0)]) { Ok(x) if x == [WasmValue::I32(7)] => {} o => return Err(format!("after the trap: {o:?}")) } }
            v.compared += 1;
            Ok(o)
        };
        let big = [need[0] + 8, need[1] + 8, need[2] + 8];
        let ok = Obs::Vals(vec![Val::I32(7 + depth)]);
        let expect = |what: &str, got: Obs, want: &Obs| if got == *want { Ok(()) } else { Err(format!("{what}: {got:?}, expected {want:?}")) };
        let trap = Obs::Trap(Trap::Stack);
        expect("enough frames", run(frames, big)?, &ok)?;
        expect("one frame too few", run(frames - 1, big)?, &trap)?;
        for k in 0..3 {
            if need[k] == 0 { continue }
            let mut t = big; t[k] = need[k] - 1; if k == 0 { t[0] = need[0] - 1 }
            expect(&format!("value stack {k} smaller than the locals"), run(frames, t)?, &trap)?;
            if k > 0 { t[k] = need[k]; expect(&format!("value stack {k} exactly the locals"), run(frames, t)?, &ok)?; }
        }
        Ok(())
    });
    v
}
fn unbounded(r: &mut Rng) -> Verdict {
    let mut v = Verdict::default();
    let kind = r.below(4);
    let mut nl = vec![]; for _ in 0..r.below(4) { nl.push(*r.pick(&[Ty::I32, Ty::I64, Ty::V128])) }
    let body = match kind { 0 => vec![I::Call(0)], 1 => vec![I::Call(1)], 2 => vec![I::I32Const(0), I::CallIndirect { type_index: 0, table_index: 0 }], _ => vec![I::I64Const(5), I::Call(0), I::Drop] };
    let b1 = vec![I::Call(0)];
    let m = module(&[], &[func(&[], &[], &nl, &body), func(&[], &[], &nl, &b1), func(&[], &[Ty::I32], &[], &[I::I32Const(3)])], &[], true);
    v.modules.push(m.clone());
    v.note = format!("unbounded recursion kind {kind}");
    guard(&mut v, "unbounded recursion", |v| {
        let md = tinywasm::parse_bytes(&m).map_err(|e| format!("{e:?}"))?;
        for cfg in [Config::new(), Config::new().with_call_stack(StackConfig::dynamic(0, 5000)), Config::new().with_call_stack(StackConfig::fixed(1)), Config::new().with_call_stack(StackConfig::fixed(100_000)).with_value_stack(StackConfig::dynamic(4, 900)), Config::new().with_call_stack(StackConfig::fixed(0))] {
            let mut s = Store::new(Engine::new(cfg));
            let i = ModuleInstance::instantiate(&mut s, &md, None).map_err(|e| format!("{e:?}"))?;
            let (f, g) = (i.func_untyped(&s, "f0").unwrap(), i.func_untyped(&s, "f2").unwrap());
            for _ in 0..2 {
                match f.call(&mut s, &[]) { Err(e) if is_stack(&world::of_err(&e)) => {} o => return Err(format!("{o:?}")) }
                match g.call(&mut s, &[]) { Ok(x) if x == [WasmValue::I32(3)] => {} o => return Err(format!("after the trap: {o:?}")) }
                v.compared += 1;
            }
        }
        Ok(())
    });
    v
}

// ---------------------------------------------------------------- fuel slices
/// Slices of a counting loop: bounded work per slice, progress in every slice, every turn counted once.
pub fn slices(r: &mut Rng) -> Verdict {
    let mut v = Verdict::default();
    let weighted = r.pct(50);
    let n = 3000 + r.below(3000) as u64;
    let charge = *r.pick(&[0u32, 200, 400, 5000, u32::MAX]);
    let call = r.pct(50) || charge > 0;
    // f0: loop { g0 += 1; [host call]; if g0 != n continue }; f1: straight recursion counting in g0
    let mut b = vec![I::Loop(BlockType::Empty), I::GlobalGet(0), I::I64Const(1), I::I64Add, I::GlobalSet(0)];
    if call { b.push(I::Call(0)) }
    b.extend([I::GlobalGet(0), I::I64Const(n as i64), I::I64Ne, I::BrIf(0), I::End, I::GlobalGet(0)]);
    let f0 = func(&[], &[Ty::I64], &[], &b);
    let f1 = func(&[Ty::I32], &[], &[], &[I::GlobalGet(0), I::I64Const(1), I::I64Add, I::GlobalSet(0), I::LocalGet(0), I::I32Eqz, I::If(BlockType::Empty), I::Return, I::End, I::LocalGet(0), I::I32Const(1), I::I32Sub, I::Call(2)]);
    let m = module(&[Sig { p: vec![], r: vec![] }], &[f0, f1], &[(Ty::I64, Val::I64(0))], false);
    v.modules.push(m.clone());
    let which = r.below(2);
    let fuel = *r.pick(&[1u32, 2, 50, 127, 128, 129, 1000, 4096]);
    v.note = format!("weighted {weighted} n {n} charge {charge} function {which} fuel {fuel}");
    guard(&mut v, "fuel slices", |v| {
        let md = tinywasm::parse_bytes(&m).map_err(|e| format!("{e:?}"))?;
        let c = Config::new().with_fuel_policy(if weighted { FuelPolicy::Weighted } else { FuelPolicy::PerInstruction }).with_call_stack(StackConfig::fixed(10_000));
        let mut s = Store::new(Engine::new(c));
        let calls = Rc::new(std::cell::Cell::new(0u64));
        let c2 = calls.clone();
        let h = HostFunction::from_untyped(&mut s, &FuncType::new(&[], &[]), move |mut cx: FuncContext<'_>, _| { c2.set(c2.get() + 1); cx.charge_fuel(charge); Ok(vec![]) });
        let mut im = Imports::new(); im.define("h", "h0", h);
        let i = ModuleInstance::instantiate(&mut s, &md, Some(im)).map_err(|e| format!("{e:?}"))?;
        let g = i.global("g0").unwrap();
        let f = i.func_untyped(&s, &format!("f{which}")).unwrap();
        let args: Vec<WasmValue> = if which == 0 { vec![] } else { vec![WasmValue::I32(n as i32)] };
        let total = if which == 0 { n } else { n + 1 };
        let _ = g;
        let mut slices = 0u64;
        let done = { let mut x = f.call_resumable(&mut s, &args).map_err(|e| format!("{e:?}"))?; loop {
            slices += 1;
            if slices > 60 * total + 100 { return Err("slices make no progress".into()) }
            match x.resume_with_fuel(fuel) { Ok(ExecProgress::Completed(o)) => break o, Ok(ExecProgress::Suspended) => {} Err(e) => return Err(format!("{e:?}")) }
        } };
        let g0 = tval(&i.global_get(&s, "g0").unwrap());
        if g0 != Val::I64(total) { return Err(format!("{g0:?} turns counted, expected {total}")) }
        if which == 0 && done != [WasmValue::I64(total as i64)] { return Err(format!("result {done:?}")) }
        if which == 0 && call && calls.get() != n { return Err(format!("{} host calls, expected {n}", calls.get())) }
        // every turn runs at least two instructions and pays for its host charge; a slice overruns its fuel by one
        // metering interval (128 instructions) at most
        let per_turn = 2 + if which == 0 && call { charge as u64 } else { 0 };
        let max_turns = (fuel as u64 + 130).div_ceil(per_turn) + 130;
        let max_turns = max_turns.min(fuel as u64 + 130);
        if slices * max_turns < total { return Err(format!("{total} turns in {slices} slices of fuel {fuel}")) }
        if charge > 0 && which == 0 { let paid = total * charge as u64; let got = slices * (fuel as u64 + charge as u64 * 130); if got < paid { return Err(format!("host charges of {paid} paid by {slices} slices of {fuel}")) } }
        v.compared += slices;
        // a larger budget needs no more slices than the total cost allows: completion within one big slice
        Ok(())
    });
    v
}

// ---------------------------------------------------------------- stores
struct World2 { s: Store, inst: ModuleInstance, mem: Memory, tab: Table, glob: Global, host: Function }
fn world2(bytes: &[u8], seed: i32) -> World2 {
    let mut s = Store::default();
    let md = tinywasm::parse_bytes(bytes).unwrap();
    let host = HostFunction::from_untyped(&mut s, &FuncType::new(&[wty(Ty::I32)], &[wty(Ty::I32)]), move |_, a| Ok(vec![a[0].clone()]));
    let mem = Memory::new(&mut s, MemoryType::default().with_page_count_initial(1).with_page_count_max(Some(3))).unwrap();
    let tab = Table::new(&mut s, TableType::new(wty(Ty::ExternRef), 4, Some(9)), wval(&Val::ExternRef(None))).unwrap();
    let glob = Global::new(&mut s, GlobalType::new(wty(Ty::I32), true), WasmValue::I32(seed)).unwrap();
    let inst = ModuleInstance::instantiate(&mut s, &md, None).unwrap();
    World2 { s, inst, mem, tab, glob, host }
}
fn snap2(w: &World2) -> String {
    let m = w.inst.memory("m0").unwrap();
    let t = w.inst.table("t0").unwrap();
    format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?}", w.mem.read_vec(&w.s, 0, 40), w.mem.page_count(&w.s), w.tab.load(&w.s, 0, w.tab.size(&w.s).unwrap()).map(|x| x.collect::<Vec<_>>()), w.glob.get(&w.s), m.read_vec(&w.s, 0, 40), t.size(&w.s), w.inst.global_get(&w.s, "g0"))
}
pub fn stores(r: &mut Rng) -> Verdict {
    let mut v = Verdict::default();
    let wat_free = {
        // (memory, table, global, functions) exported; an importer module for each kind
        let mut m = we::Module::new();
        let (mut t, mut fs, mut ts, mut ms, mut gs, mut ex, mut co) = (we::TypeSection::new(), we::FunctionSection::new(), we::TableSection::new(), we::MemorySection::new(), we::GlobalSection::new(), we::ExportSection::new(), we::CodeSection::new());
        t.ty().function([we::ValType::I32], [we::ValType::I32]);
        fs.function(0);
        ts.table(we::TableType { element_type: we::RefType::EXTERNREF, table64: false, minimum: 4, maximum: Some(9), shared: false });
        ms.memory(we::MemoryType { minimum: 1, maximum: Some(3), memory64: false, shared: false, page_size_log2: None });
        gs.global(we::GlobalType { val_type: we::ValType::I32, mutable: true, shared: false }, &we::ConstExpr::i32_const(5));
        for (n, k) in [("f0", we::ExportKind::Func), ("t0", we::ExportKind::Table), ("m0", we::ExportKind::Memory), ("g0", we::ExportKind::Global)] { ex.export(n, k, 0); }
        let mut f = we::Function::new([]); for i in [I::GlobalGet(0), I::LocalGet(0), I::I32Add, I::GlobalSet(0), I::GlobalGet(0), I::End] { f.instruction(&i); } co.function(&f);
        m.section(&t).section(&fs).section(&ts).section(&ms).section(&gs).section(&ex).section(&co);
        m.finish()
    };
    let importer = |kind: u32| {
        let mut m = we::Module::new();
        let (mut t, mut im) = (we::TypeSection::new(), we::ImportSection::new());
        t.ty().function([we::ValType::I32], [we::ValType::I32]);
        let e = match kind { 0 => we::EntityType::Function(0), 1 => we::EntityType::Memory(we::MemoryType { minimum: 1, maximum: Some(3), memory64: false, shared: false, page_size_log2: None }), 2 => we::EntityType::Table(we::TableType { element_type: we::RefType::EXTERNREF, table64: false, minimum: 4, maximum: Some(9), shared: false }), _ => we::EntityType::Global(we::GlobalType { val_type: we::ValType::I32, mutable: true, shared: false }) };
        im.import("x", "y", e);
        m.section(&t).section(&im);
        m.finish()
    };
    v.modules.push(Rc::new(wat_free.clone()));
    let n = r.below(4);
    guard(&mut v, "foreign handle", |v| {
        let a = world2(&wat_free, 1);
        // the second store holds more objects, so that a foreign address usually exists there too
        let mut b = world2(&wat_free, 2);
        for _ in 0..n { Memory::new(&mut b.s, MemoryType::default()).unwrap(); Global::new(&mut b.s, GlobalType::new(wty(Ty::I32), true), WasmValue::I32(9)).unwrap(); }
        let (mut a, mut b) = if r.pct(50) { (a, b) } else { (b, a) };
        let (sa, sb) = (snap2(&a), snap2(&b));
        let md: Vec<_> = (0..4).map(|k| tinywasm::parse_bytes(&importer(k)).unwrap()).collect();
        let (am, at, ag, af) = (a.inst.memory("m0").unwrap(), a.inst.table("t0").unwrap(), a.inst.global("g0").unwrap(), a.inst.func_untyped(&a.s, "f0").unwrap());
        let typed = a.inst.func::<i32, i32>(&a.s, "f0").unwrap();
        let mems = [a.mem, am];
        let tabs = [a.tab, at];
        let globs = [a.glob, ag];
        let funcs = [a.host.clone(), af];
        type Op<'x> = (&'static str, Box<dyn Fn(&mut Store) -> Result<(), Error> + 'x>);
        let mut ops: Vec<Op> = vec![];
        macro_rules! op { ($n:expr, |$s:ident| $e:expr) => { ops.push(($n, Box::new(move |$s: &mut Store| $e.map(|_| ()).map_err(Error::from)))) } }
        for m in mems {
            op!("Memory::len", |s| m.len(s)); op!("Memory::ty", |s| m.ty(s)); op!("Memory::read", |s| m.read(s, 0, &mut [0; 4])); op!("Memory::write", |s| m.write(s, 0, &[9; 4])); op!("Memory::read_exact", |s| m.read_exact(s, 0, &mut [0; 4])); op!("Memory::read_vec", |s| m.read_vec(s, 0, 4));
            op!("Memory::grow", |s| m.grow(s, 1)); op!("Memory::grow 0", |s| m.grow(s, 0)); op!("Memory::grow -1", |s| m.grow(s, -1)); op!("Memory::page_count", |s| m.page_count(s)); op!("Memory::copy_within", |s| m.copy_within(s, 0, 3, 4)); op!("Memory::fill", |s| m.fill(s, 0, 8, 7)); op!("Memory::copy_from_slice", |s| m.copy_from_slice(s, 1, &[1, 2])); op!("Memory::copy_from_slice empty", |s| m.copy_from_slice(s, 1, &[])); op!("Memory::write_cstring_bytes", |s| m.write_cstring_bytes(s, 1, "ab"));
            op!("Memory::read_cstring", |s| m.read_cstring(s, 0, 1)); op!("Memory::read_cstring_until_null", |s| m.read_cstring_until_null(s, 0, 1)); op!("Memory::read_string", |s| m.read_string(s, 0, 1)); op!("Memory::read_js_string", |s| m.read_js_string(s, 0, 2)); op!("Memory::cursor", |s| m.cursor(s)); op!("Memory::cursor_at", |s| m.cursor_at(s, 3)); op!("Memory::write_cstring", |s| m.write_cstring(s, 0, &std::ffi::CString::new("q").unwrap())); op!("Memory::fill out of bounds", |s| m.fill(s, 1 << 20, 8, 7)); op!("Memory::read_vec 0", |s| m.read_vec(s, 0, 0));
        }
        for t in tabs { op!("Table::ty", |s| t.ty(s)); op!("Table::size", |s| t.size(s)); op!("Table::get", |s| t.get(s, 0)); op!("Table::load", |s| t.load(s, 0, 2)); op!("Table::set", |s| t.set(s, 0, wval(&Val::ExternRef(Some(3))))); op!("Table::copy_within", |s| t.copy_within(s, 0, 1, 2)); op!("Table::grow", |s| t.grow(s, 1, wval(&Val::ExternRef(Some(3))))); op!("Table::set out of range", |s| t.set(s, 100, wval(&Val::ExternRef(Some(3))))); }
        for g in globs { op!("Global::ty", |s| g.ty(s)); op!("Global::get", |s| g.get(s)); op!("Global::set", |s| g.set(s, WasmValue::I32(77))); op!("Global::set ill-typed", |s| g.set(s, WasmValue::I64(77))); }
        for (k, f) in funcs.iter().enumerate() {
            let f = f.clone();
            let f2 = f.clone();
            op!(["Function::call (host)", "Function::call"][k], |s| f.call(s, &[WasmValue::I32(1)]));
            op!("Function::call_resumable", |s| f2.call_resumable(s, &[WasmValue::I32(1)]));
        }
        { let t = &typed; op!("FunctionTyped::call", |s| t.call(s, 1)); op!("FunctionTyped::call_resumable", |s| t.call_resumable(s, 1)); }
        macro_rules! iop { ($n:expr, |$i:ident, $s:ident| $e:expr) => { { let $i = a.inst.clone(); op!($n, |$s| $e) } } }
        iop!("ModuleInstance::func_untyped", |i, s| i.func_untyped(s, "f0")); iop!("ModuleInstance::func", |i, s| i.func::<i32, i32>(s, "f0")); #[cfg(feature = "dbg")] { iop!("ModuleInstance::func_by_index", |i, s| i.func_by_index(s, 0)); iop!("ModuleInstance::func_typed_by_index", |i, s| i.func_typed_by_index::<i32, i32>(s, 0)); }
        iop!("ModuleInstance::global_get", |i, s| i.global_get(s, "g0")); iop!("ModuleInstance::global_set", |i, s| i.global_set(s, "g0", WasmValue::I32(3))); iop!("ModuleInstance::start_func", |i, s| i.start_func(s)); iop!("ModuleInstance::start", |i, s| i.start(s));
        // imports offered by handle or by linking a whole instance
        let ext: Vec<(usize, Extern)> = vec![(0, funcs[0].clone().into()), (0, funcs[1].clone().into()), (1, mems[0].into()), (1, mems[1].into()), (2, tabs[0].into()), (2, tabs[1].into()), (3, globs[0].into()), (3, globs[1].into())];
        for (k, e) in ext { let md = md[k].clone(); let name = ["import of a foreign function", "import of a foreign memory", "import of a foreign table", "import of a foreign global"][k]; let md2 = md.clone(); let e2 = e.clone();
            op!(name, |s| { let mut im = Imports::new(); im.define("x", "y", e.clone()); ModuleInstance::instantiate(s, &md, Some(im)) });
            op!(name, |s| { let mut im = Imports::new(); im.define("x", "y", e2.clone()); ModuleInstance::instantiate_no_start(s, &md2, Some(im)) }); }
        { let i = a.inst.clone(); for k in 0..4usize { let name = ["f0", "m0", "t0", "g0"][k]; let mut m = we::Module::new(); let (mut t, mut im) = (we::TypeSection::new(), we::ImportSection::new()); t.ty().function([we::ValType::I32], [we::ValType::I32]);
            let e = match k { 0 => we::EntityType::Function(0), 1 => we::EntityType::Memory(we::MemoryType { minimum: 1, maximum: Some(3), memory64: false, shared: false, page_size_log2: None }), 2 => we::EntityType::Table(we::TableType { element_type: we::RefType::EXTERNREF, table64: false, minimum: 4, maximum: Some(9), shared: false }), _ => we::EntityType::Global(we::GlobalType { val_type: we::ValType::I32, mutable: true, shared: false }) };
            im.import("x", name, e); m.section(&t).section(&im); let md = tinywasm::parse_bytes(&m.finish()).unwrap(); let i = i.clone();
            op!("linking a foreign instance", |s| { let mut im = Imports::new(); im.link_module("x", i.clone()).unwrap(); ModuleInstance::instantiate(s, &md, Some(im)) }); } }
        for (name, f) in &ops {
            match catch_unwind(AssertUnwindSafe(|| f(&mut b.s))) {
                Err(p) => return Err(format!("{name}: host panic: {}", panic_msg(p))),
                Ok(Ok(())) => return Err(format!("{name}: accepted a handle of another store")),
                Ok(Err(Error::Trap(tinywasm::Trap::InvalidStore))) => {}
                Ok(Err(e)) => return Err(format!("{name}: {e:?}, expected an invalid-store error")),
            }
            v.compared += 1;
            *v.cover.entry(name.to_string()).or_default() += 1;
            let (ta, tb) = (snap2(&a), snap2(&b));
            if ta != sa { return Err(format!("{name}: changed the handle's store: {sa} -> {ta}")) }
            if tb != sb { return Err(format!("{name}: changed the other store: {sb} -> {tb}")) }
        }
        // with its own store everything works, on its own object
        for (k, (name, f)) in ops.iter().enumerate() {
            if name.contains("ill-typed") || name.contains("out of") { continue }
            match catch_unwind(AssertUnwindSafe(|| f(&mut a.s))) {
                Err(p) => return Err(format!("{name} with its own store: host panic: {}", panic_msg(p))),
                Ok(Err(e)) if !name.contains("cstring") => return Err(format!("{name} (operation {k}) with its own store: {e:?}")),
                _ => {}
            }
            if snap2(&b) != sb { return Err(format!("{name}: changed the other store")) }
        }
        Ok(())
    });
    v
}

// ---------------------------------------------------------------- typed host boundary
pub fn typed(r: &mut Rng) -> Verdict {
    let mut v = Verdict::default();
    let seed = r.next();
    guard(&mut v, "typed boundary", |v| {
        let r = &mut Rng::new(seed);
        macro_rules! ty { (i32) => { Ty::I32 }; (i64) => { Ty::I64 }; (f32) => { Ty::F32 }; (f64) => { Ty::F64 }; (Fr) => { Ty::FuncRef }; (Er) => { Ty::ExternRef }; (Vv) => { Ty::V128 } }
        macro_rules! rt { (i32) => { i32 }; (i64) => { i64 }; (f32) => { f32 }; (f64) => { f64 }; (Fr) => { tinywasm::types::FuncRef }; (Er) => { tinywasm::types::ExternRef }; (Vv) => { [u8; 16] } }
        macro_rules! get { (i32, $v:expr) => { { let WasmValue::I32(x) = $v else { panic!() }; x } }; (i64, $v:expr) => { { let WasmValue::I64(x) = $v else { panic!() }; x } }; (f32, $v:expr) => { { let WasmValue::F32(x) = $v else { panic!() }; x } }; (f64, $v:expr) => { { let WasmValue::F64(x) = $v else { panic!() }; x } }; (Fr, $v:expr) => { { let WasmValue::RefFunc(x) = $v else { panic!() }; x } }; (Er, $v:expr) => { { let WasmValue::RefExtern(x) = $v else { panic!() }; x } }; (Vv, $v:expr) => { { let WasmValue::V128(x) = $v else { panic!() }; x } } }
        // results of the declared types only if the handle's types are exactly the function's
        macro_rules! sig { ($(($($t:ident),*)),* $(,)?) => { $( {
            let tys: Vec<Ty> = vec![$(ty!($t)),*];
            type Tup = ($(rt!($t),)*);
            let sig = Sig { p: tys.clone(), r: tys.clone() };
            let n = tys.len() as u32;
            // f0 returns its arguments, f1 passes them through the host, f2 tail-calls the host
            let b0: Vec<I<'static>> = (0..n).map(I::LocalGet).collect();
            let mut b1 = b0.clone(); b1.push(I::Call(0));
            let mut b2 = b0.clone(); b2.push(I::ReturnCall(0));
            let m = module(&[sig.clone()], &[func(&tys, &tys, &[], &b0), func(&tys, &tys, &[], &b1), func(&tys, &tys, &[], &b2)], &[], false);
            v.modules = vec![m.clone()];
            let md = tinywasm::parse_bytes(&m).map_err(|e| format!("{e:?}"))?;
            let mut s = Store::default();
            let seen: Rc<std::cell::RefCell<Vec<Vec<Val>>>> = Default::default();
            let s2 = seen.clone();
            let h = HostFunction::from::<Tup, Tup>(&mut s, move |_: FuncContext<'_>, a: Tup| {
                #[allow(non_snake_case, unused_variables, unused_assignments, unused_mut)]
                { let mut k = 0; let _ = &mut k; let mut l: Vec<Val> = vec![]; tup_vals!(a, l, $($t),*); s2.borrow_mut().push(l); }
                Ok(a)
            });
            let mut im = Imports::new(); im.define("h", "h0", h.clone());
            let i = ModuleInstance::instantiate(&mut s, &md, Some(im)).map_err(|e| format!("{e:?}"))?;
            for _ in 0..4 {
                let vals: Vec<Val> = tys.iter().map(|t| match rval(r, *t) { Val::ExternRef(x) => Val::ExternRef(x), x => x }).collect();
                let w: Vec<WasmValue> = vals.iter().map(wval).collect();
                for f in ["f0", "f1", "f2"] {
                    let u = i.func_untyped(&s, f).map_err(|e| format!("{e:?}"))?.call(&mut s, &w).map_err(|e| format!("untyped {f} {vals:?}: {e:?}"))?;
                    if u.iter().map(tval).collect::<Vec<_>>() != vals { return Err(format!("untyped {f} returned {u:?} for {vals:?}")) }
                    let th = i.func::<Tup, Tup>(&s, f).map_err(|e| format!("typed handle refused: {e:?}"))?;
                    #[allow(unused_mut, unused_variables)] let mut it = w.clone().into_iter();
                    let arg: Tup = ($(get!($t, it.next().unwrap()),)*);
                    let out: Tup = th.call(&mut s, arg).map_err(|e| format!("typed {f} {vals:?}: {e:?}"))?;
                    let mut l: Vec<Val> = vec![]; tup_vals!(out, l, $($t),*);
                    if l != vals { return Err(format!("typed {f} returned {l:?} for {vals:?}")) }
                    v.compared += 2;
                }
                for x in seen.borrow_mut().drain(..) { if x != vals { return Err(format!("the host function received {x:?} for {vals:?}")) } }
                let u = h.call(&mut s, &w).map_err(|e| format!("host called directly: {e:?}"))?;
                if u.iter().map(tval).collect::<Vec<_>>() != vals { return Err(format!("host called directly returned {u:?} for {vals:?}")) }
                seen.borrow_mut().clear();
            }
            // typed handles of any other signature are refused
            macro_rules! other { ($q:ty) => { {
                let want = <$q as tinywasm::ToWasmTypes>::wasm_types();
                let mine: Vec<_> = tys.iter().map(|t| wty(*t)).collect();
                let same = want.iter().copied().eq(mine.iter().copied());
                if i.func::<$q, Tup>(&s, "f0").is_ok() != same { return Err(format!("typed handle with parameters {want:?} for parameters {mine:?}: accepted {}", !same)) }
                if i.func::<Tup, $q>(&s, "f0").is_ok() != same { return Err(format!("typed handle with results {want:?} for results {mine:?}: accepted {}", !same)) }
                v.compared += 2;
            } } }
            other!(()); other!(i32); other!(i64); other!(f32); other!(f64); other!((i32, i64)); other!((i64, i32)); other!((f32, f64)); other!((i32, i32)); other!((i32, i64, f32, f64)); other!(tinywasm::types::FuncRef); other!(tinywasm::types::ExternRef);
            // untyped calls with any other argument list are refused
            for _ in 0..6 {
                let mut l = tys.clone();
                match r.below(3) { 0 => { l.pop(); } 1 => l.push(*r.pick(&pgen::ALL)), _ => if !l.is_empty() { let k = r.below(l.len()); l[k] = *r.pick(&pgen::ALL) } }
                let w: Vec<WasmValue> = l.iter().map(|t| wval(&rval(r, *t))).collect();
                for f in ["f0", "f1"] {
                    let o = i.func_untyped(&s, f).unwrap().call(&mut s, &w);
                    if o.is_ok() != (l == tys) { return Err(format!("{f}{tys:?} called with {w:?}: {o:?}")) }
                    if let Err(e) = o { if world::of_err(&e) != Obs::Err("args") { return Err(format!("{f}{tys:?} called with {w:?}: {e:?}")) } }
                }
                let o = h.call(&mut s, &w);
                if o.is_ok() != (l == tys) { return Err(format!("host function {tys:?} called with {w:?}: {o:?}")) }
                v.compared += 3;
            }
            // an untyped host function returning something else yields an error and leaves the caller alone
            for _ in 0..4 {
                let mut l = tys.clone();
                match r.below(3) { 0 => { l.pop(); } 1 => l.push(*r.pick(&pgen::ALL)), _ => if !l.is_empty() { let k = r.below(l.len()); l[k] = *r.pick(&pgen::ALL) } }
                let ret: Vec<Val> = l.iter().map(|t| rval(r, *t)).collect();
                let rw: Vec<WasmValue> = ret.iter().map(wval).collect();
                let bad = HostFunction::from_untyped(&mut s, &world::fty(&sig), move |_, _| Ok(rw.clone()));
                let mut im = Imports::new(); im.define("h", "h0", bad);
                let j = ModuleInstance::instantiate(&mut s, &md, Some(im)).map_err(|e| format!("{e:?}"))?;
                let w: Vec<WasmValue> = tys.iter().map(|t| wval(&rval(r, *t))).collect();
                for f in ["f1", "f2"] {
                    let o = j.func_untyped(&s, f).unwrap().call(&mut s, &w);
                    match (&o, l == tys) { (Ok(x), true) if x.iter().map(tval).collect::<Vec<_>>() == ret => {} (Err(e), false) if world::of_err(e) == Obs::Host("bad-return".into()) => {} _ => return Err(format!("{f}: host returned {ret:?} for {tys:?}: {o:?}")) }
                    let o = i.func_untyped(&s, "f0").unwrap().call(&mut s, &w).map_err(|e| format!("later call: {e:?}"))?;
                    if o.iter().map(tval).ne(w.iter().map(tval)) { return Err(format!("later call returned {o:?} for {w:?}")) }
                    v.compared += 2;
                }
            }
        } )* } }
        macro_rules! tup_vals { ($a:expr, $l:ident, ) => { let _ = &$a; }; ($a:expr, $l:ident, $t0:ident) => { { let (x0,) = $a; $l.push(tval(&WasmValue::from(x0))) } }; ($a:expr, $l:ident, $t0:ident, $t1:ident) => { { let (x0, x1) = $a; $l.push(tval(&WasmValue::from(x0))); $l.push(tval(&WasmValue::from(x1))) } }; ($a:expr, $l:ident, $t0:ident, $t1:ident, $t2:ident) => { { let (x0, x1, x2) = $a; $l.push(tval(&WasmValue::from(x0))); $l.push(tval(&WasmValue::from(x1))); $l.push(tval(&WasmValue::from(x2))) } }; ($a:expr, $l:ident, $t0:ident, $t1:ident, $t2:ident, $t3:ident) => { { let (x0, x1, x2, x3) = $a; $l.push(tval(&WasmValue::from(x0))); $l.push(tval(&WasmValue::from(x1))); $l.push(tval(&WasmValue::from(x2))); $l.push(tval(&WasmValue::from(x3))) } } ; ($a:expr, $l:ident, $t0:ident, $t1:ident, $t2:ident, $t3:ident, $t4:ident) => { { let (x0, x1, x2, x3, x4) = $a; for y in [WasmValue::from(x0), WasmValue::from(x1), WasmValue::from(x2), WasmValue::from(x3), WasmValue::from(x4)] { $l.push(tval(&y)) } } } }
        match seed % 4 {
            0 => { sig!((i32), (i64, i32), (f32, f64, i32)); }
            1 => { sig!((f32), (i32, i32), (f64, i64, f32, i32)); }
            2 => { sig!((Er), (Fr, i32), (i64, Er, i32)); }
            _ => { sig!((f64), (f32, f64), (i32, i64, f32, f64), (i64, f32, i32, i64, f64)); }
        }
        Ok(())
    });
    v
}

// ---------------------------------------------------------------- archive
pub fn archive(r: &mut Rng) -> Verdict {
    let mut o = ScenOpts::default();
    o.modules = 1 + r.below(2);
    let mut sc = scenario(r, &Prof { simd: 6, ..Prof::default() }, &o);
    if crate::checks::over(&mut sc) { return Verdict { modules: sc.modules, ..Verdict::default() } }
    let mut v = Verdict { modules: sc.modules.clone(), ..Verdict::default() };
    let cfg = rcfg(r);
    guard(&mut v, "archive", |v| {
        for b in &sc.modules {
            let m = match cfg.parser().parse_module_bytes(&b[..]) { Ok(m) => m, Err(e) => return Err(format!("parse: {e:?}")) };
            let bytes = m.serialize_twasm().map_err(|e| format!("serialise: {e:?}"))?;
            let back = tinywasm::Module::try_from_twasm(&bytes).map_err(|e| format!("load: {e:?}"))?;
            if back != m { return Err("the loaded module differs from the original".into()) }
            if format!("{back:?}") != format!("{m:?}") { return Err("the loaded module prints differently from the original".into()) }
            let again = back.serialize_twasm().map_err(|e| format!("{e:?}"))?;
            if again != bytes { return Err("serialising the loaded module gives other bytes".into()) }
            for k in 0..16 { for x in [1u8, 0x80, 0xff, rint(r) as u8 | 1] { let mut c = bytes.clone(); c[k] ^= x; if tinywasm::Module::try_from_twasm(&c).is_ok() { return Err(format!("accepted with header byte {k} changed by {x:#x}")) } v.compared += 1; } }
            for k in 0..24 { let n = if k < 17 { k } else { r.below(bytes.len()) }; if n < bytes.len() && tinywasm::Module::try_from_twasm(&bytes[..n]).is_ok() { return Err(format!("accepted when truncated to {n} of {} bytes", bytes.len())) } v.compared += 1; }
            v.compared += 3;
        }
        Ok(())
    });
    if v.fail.is_none() { let w = diff_sc(&sc, &Cfg { archive: true, ..cfg }); v.fail = w.fail; v.discarded = w.discarded; v.compared += w.compared; v.note = w.note; v.cover = w.cover }
    v
}

// ---------------------------------------------------------------- metadata
pub fn metadata(r: &mut Rng) -> Verdict {
    let mut o = ScenOpts::default();
    o.modules = 1 + r.below(3); o.objs = 50;
    let mut p = Prof { host: 70, ..Prof::default() };
    if r.pct(50) { p.funcs = 9 }
    let mut sc = scenario(r, &p, &o);
    if crate::checks::over(&mut sc) { return Verdict { modules: sc.modules, ..Verdict::default() } }
    let mut v = Verdict { modules: sc.modules.clone(), note: format!("{:?}", sc.acts), ..Verdict::default() };
    let cfg = rcfg(r);
    guard(&mut v, "metadata", |v| {
        let fty = |s: &Sig| world::fty(s);
        let mty = |t: &MemTy| (t.m64, t.min, t.max, t.page);
        let tmem = |t: &MemoryType| (t.arch() == tinywasm::types::MemoryArch::I64, t.page_count_initial(), t.page_count_max(), t.page_size());
        for b in &sc.modules {
            let m = cfg.parser().parse_module_bytes(&b[..]).map_err(|e| format!("parse: {e:?}"))?;
            let m = if r.pct(30) { tinywasm::Module::try_from_twasm(&m.serialize_twasm().unwrap()).unwrap() } else { m };
            let rm = crate::refint::RModule::decode(b);
            let want_imports: Vec<String> = rm.imports.iter().map(|(mo, n, t)| format!("{mo}|{n}|{}", match t {
                crate::refint::ImpTy::F(t) => format!("{:?}", fty(&rm.types[*t as usize])),
                crate::refint::ImpTy::T(t) => show_tab(t), crate::refint::ImpTy::M(t) => show_mem(mty(t), t.max), crate::refint::ImpTy::G(t) => show_glob(t) })).collect();
            let got_imports: Vec<String> = m.imports().map(|i| format!("{}|{}|{}", i.module, i.name, match i.ty { ImportType::Func(f) => format!("{f:?}"), ImportType::Table(t) => show_tab2(t), ImportType::Memory(t) => show_mem2(tmem(t)), ImportType::Global(g) => show_glob2(g) })).collect();
            if want_imports != got_imports { return Err(format!("imports {got_imports:?}, declared {want_imports:?}")) }
            let we_: Vec<String> = rm.exports.iter().map(|(n, k, i)| format!("{n}|{}", rm_ty(&rm, *k, *i as usize))).collect();
            let ge: Vec<String> = m.exports().map(|e| format!("{}|{}", e.name, match e.ty { ExportType::Func(f) => format!("{f:?}"), ExportType::Table(t) => show_tab2(t), ExportType::Memory(t) => show_mem2(tmem(t)), ExportType::Global(g) => show_glob2(g) })).collect();
            if we_ != ge { return Err(format!("exports {ge:?}, declared {we_:?}")) }
            v.compared += (we_.len() + want_imports.len()) as u64;
        }
        // instances: exported objects by name
        let mut rw = RWorld::new(&sc);
        let mut tw = TWorld::new(&sc, &cfg)?;
        for a in &sc.acts {
            if !matches!(a, Act::NewHost(..) | Act::NewMem(_) | Act::NewTable(..) | Act::NewGlobal(..) | Act::Inst { .. }) { break }
            let vals = world::act_vals(&rw, a);
            let x = rw.act(a);
            rw.s.trace.clear();
            if x == Obs::Budget { v.discarded = true; return Ok(()) }
            let y = tw.act(a, &vals);
            if x != y && !(matches!(x, Obs::Host(_)) && matches!(y, Obs::Host(_))) { return Err(format!("{}: reference {x:?} tinywasm {y:?}", world::show(a))) }
            for (w, ri) in rw.s.alias.clone().into_iter().enumerate() {
                let Some(ri) = ri else { continue };
                let Some(ti) = tw.inst(w) else { return Err(format!("instance {w} missing")) };
                let exps = rw.s.insts[ri].m.exports.clone();
                let got: Vec<String> = ti.exports().map(|(n, _)| n.to_string()).collect();
                let mut want: Vec<String> = exps.iter().map(|e| e.0.clone()).collect();
                let mut g2 = got.clone(); g2.sort(); want.sort();
                if g2 != want { return Err(format!("instance exports {got:?}, declared {want:?}")) }
                for (n, k, idx) in &exps {
                    use crate::refint::Kind;
                    let (f, me, t, g) = (ti.func_untyped(&tw.store, n).is_ok(), ti.memory(n).is_ok(), ti.table(n).is_ok(), ti.global(n).is_ok());
                    if (f, me, t, g) != (*k == Kind::F, *k == Kind::M, *k == Kind::T, *k == Kind::G) { return Err(format!("export {n} of kind {k:?} found as function {f}, memory {me}, table {t}, global {g}")) }
                    if ti.extern_item(n).is_err() { return Err(format!("export {n} not found as an item")) }
                    if ti.global_get(&tw.store, n).is_ok() != (*k == Kind::G) { return Err(format!("global_get({n}) of kind {k:?}")) }
                    let kind = match ti.extern_item(n).unwrap() { tinywasm::ExternItem::Func(_) => Kind::F, tinywasm::ExternItem::Memory(_) => Kind::M, tinywasm::ExternItem::Table(_) => Kind::T, tinywasm::ExternItem::Global(_) => Kind::G };
                    if kind != *k { return Err(format!("export {n} of kind {k:?} found as {kind:?}")) }
                    // by index: the same object as by name
                    #[cfg(not(feature = "dbg"))] let _ = idx;
                    #[cfg(feature = "dbg")]
                    match k {
                        Kind::M => { if ti.memory_by_index(*idx).map_err(|e| format!("{e:?}"))? != ti.memory(n).unwrap() { return Err(format!("memory {idx} is not export {n}")) } let ty = ti.memory(n).unwrap().ty(&tw.store).map_err(|e| format!("{e:?}"))?; let a = rw.s.insts[ri].mem[*idx as usize]; let wt = &rw.s.mems[a].ty; if (ty.page_size(), ty.arch() == tinywasm::types::MemoryArch::I64) != (wt.page, wt.m64) { return Err(format!("memory type {ty:?}, declared {wt:?}")) } }
                        Kind::T => { if ti.table_by_index(*idx).map_err(|e| format!("{e:?}"))? != ti.table(n).unwrap() { return Err(format!("table {idx} is not export {n}")) } let ty = ti.table(n).unwrap().ty(&tw.store).map_err(|e| format!("{e:?}"))?; let a = rw.s.insts[ri].t[*idx as usize]; if ty.element_type != wty(rw.s.tabs[a].ty.el) { return Err(format!("table type {ty:?}")) } }
                        Kind::G => { if ti.global_by_index(*idx).map_err(|e| format!("{e:?}"))? != ti.global(n).unwrap() { return Err(format!("global {idx} is not export {n}")) } let ty = ti.global(n).unwrap().ty(&tw.store).map_err(|e| format!("{e:?}"))?; let a = rw.s.insts[ri].g[*idx as usize]; let wt = rw.s.globs[a].ty; if (ty.ty, ty.mutable) != (wty(wt.ty), wt.mutable) { return Err(format!("global type {ty:?}, declared {wt:?}")) } }
                        Kind::F => { ti.func_by_index(&tw.store, *idx).map_err(|e| format!("function {idx}: {e:?}"))?; }
                    }
                    v.compared += 4;
                }
                #[cfg(feature = "dbg")]
                let lens = { let i = &rw.s.insts[ri]; [i.f.len(), i.mem.len(), i.t.len(), i.g.len()] };
                #[cfg(feature = "dbg")]
                for d in [0u32, 1, 1000, u32::MAX - 7] {
                    let at = |n: usize| (n as u32).saturating_add(d);
                    if ti.func_by_index(&tw.store, at(lens[0])).is_ok() || ti.memory_by_index(at(lens[1])).is_ok() || ti.table_by_index(at(lens[2])).is_ok() || ti.global_by_index(at(lens[3])).is_ok() { return Err("an index out of range was found".into()) }
                }
                for n in ["", "nope", "f", "f0 ", "F0", "m99"] { if !exps.iter().any(|e| e.0 == n) && (ti.func_untyped(&tw.store, n).is_ok() || ti.memory(n).is_ok() || ti.table(n).is_ok() || ti.global(n).is_ok() || ti.extern_item(n).is_ok() || ti.export_addr(n).is_some() || ti.global_get(&tw.store, n).is_ok()) { return Err(format!("absent name {n:?} was found")) } }
            }
        }
        Ok(())
    });
    v
}
fn rm_ty(m: &crate::refint::RModule, k: crate::refint::Kind, i: usize) -> String {
    use crate::refint::{ImpTy, Kind};
    let (mut f, mut t, mut me, mut g): (Vec<String>, Vec<String>, Vec<String>, Vec<String>) = Default::default();
    for x in &m.imports { match &x.2 { ImpTy::F(a) => f.push(format!("{:?}", world::fty(&m.types[*a as usize]))), ImpTy::T(x) => t.push(show_tab(x)), ImpTy::M(x) => me.push(show_mem((x.m64, x.min, x.max, x.page), x.max)), ImpTy::G(x) => g.push(show_glob(x)) } }
    for x in &m.funcs { f.push(format!("{:?}", world::fty(&m.types[*x as usize]))) }
    for x in &m.tables { t.push(show_tab(x)) }
    for x in &m.mems { me.push(show_mem((x.m64, x.min, x.max, x.page), x.max)) }
    for x in &m.globals { g.push(show_glob(&x.0)) }
    match k { Kind::F => f[i].clone(), Kind::T => t[i].clone(), Kind::M => me[i].clone(), Kind::G => g[i].clone() }
}
fn show_tab(t: &TabTy) -> String { format!("table {:?} {} {} {:?}", wty(t.el), t.t64, t.min, t.max) }
fn show_tab2(t: &TableType) -> String { format!("table {:?} {} {} {:?}", t.element_type, t.arch() == tinywasm::types::MemoryArch::I64, t.size_initial, t.size_max) }
// an absent memory maximum is reported as the largest the address type and page size allow
fn show_mem(t: (bool, u64, Option<u64>, u64), m: Option<u64>) -> String { format!("memory {} {} {:?} {}", t.0, t.1, Some(m.unwrap_or((1u64 << 32) / t.3)), t.3) }
fn show_mem2(t: (bool, u64, u64, u64)) -> String { format!("memory {} {} {:?} {}", t.0, t.1, Some(t.2), t.3) }
fn show_glob(t: &GlobTy) -> String { format!("global {:?} {}", wty(t.ty), t.mutable) }
fn show_glob2(t: &GlobalType) -> String { format!("global {:?} {}", t.ty, t.mutable) }
#[allow(unused)] fn unused(_: Mode, _: Arg) {}

// ---------------------------------------------------------------- memory backends, driven directly, against a byte array
pub fn backends(r: &mut Rng) -> Verdict {
    use tinywasm::engine::{LinearMemory, LazyLinearMemory, MemoryBackend, PagedMemory, VecMemory};
    let mut v = Verdict::default();
    let n0 = match r.below(4) { 0 => r.below(3), 1 => r.below(70), _ => 500 + r.below(1500) };
    let chunk = *r.pick(&[1usize, 2, 4, 16, 64, 128, 256, 512, 1024, 4096]);
    let kind = r.below(6);
    let mut ops = vec![];
    guard(&mut v, "memory backend", |v| {
        let bad = |e: tinywasm::Trap| format!("creation fails: {e:?}");
        // page size 1: `initial` pages are bytes
        let ty = || MemoryType::default().with_page_count_initial(n0 as u64).with_page_count_max(None).with_page_size(Some(1));
        let mut m: Box<dyn LinearMemory> = match kind { 0 => Box::new(VecMemory::try_new(n0).map_err(bad)?), 1 | 2 => Box::new(PagedMemory::try_new(n0, chunk).map_err(bad)?), 3 => Box::new(LazyLinearMemory::try_new(ty(), MemoryBackend::vec()).map_err(|e| format!("{e:?}"))?), 4 => Box::new(LazyLinearMemory::try_new(ty(), MemoryBackend::paged(chunk)).map_err(|e| format!("{e:?}"))?), _ => Box::new(world::OddMemory(vec![0; n0])) };
        let name = ["vec", "paged", "paged", "lazy vec", "lazy paged", "a custom backend with the default methods"][kind];
        let mut b = vec![0u8; n0];
        let fail = |ops: &Vec<String>, w: String| Err(format!("{name} memory of {n0} bytes, chunks of {chunk}: {w}; operations: {}", ops.join(", ")));
        for _ in 0..2 + r.below(14) {
            let n = b.len();
            let off = |r: &mut Rng| match r.below(10) { 0 => n, 1 => n.wrapping_sub(r.below(18)), 2 => n + r.below(5), 3 => usize::MAX - r.below(40), 4 => (r.below(n / chunk + 1) * chunk).wrapping_sub(r.below(9)), 5 => r.below(n / chunk + 1) * chunk, _ => r.below(n + 1) };
            let len = |r: &mut Rng| match r.below(10) { 0 => 0, 1 => n, 2 => r.below(n + 3), 3 => usize::MAX - r.below(40), 4 => chunk, 5 => r.below(n / 2 + 1), 6 => 200 + r.below(500), _ => r.below(40) };
            let inb = |a: usize, l: usize| a as u128 + l as u128 <= n as u128;
            let data = |r: &mut Rng, l: usize| -> Vec<u8> { (0..l).map(|_| if r.pct(10) { 0 } else { r.next() as u8 }).collect() };
            let (a, l) = (off(r), len(r));
            let l = if r.pct(50) && !inb(a, l) && a <= n { n - a } else { l };
            macro_rules! want { ($got:expr, $want:expr) => { if $got != $want { return fail(&ops, format!("{:?} instead of {:?}", &$got, &$want)) } } }
            match r.below(14) {
                0 | 1 | 2 => { let l = l.min(3000); let d = data(r, l); ops.push(format!("write_all({a}, {l} bytes)")); want!(m.write_all(a, &d), inb(a, l).then_some(())); if inb(a, l) { b[a..a + l].copy_from_slice(&d) } }
                3 => { let l = l.min(3000); let d = data(r, l); ops.push(format!("write({a}, {l} bytes)")); let k = m.write(a, &d); let most = if a < n { l.min(n - a) } else { 0 };
                    if k > most || (k == 0 && most > 0) { return fail(&ops, format!("wrote {k} of {most} bytes")) } if k > 0 { b[a..a + k].copy_from_slice(&d[..k]) } }
                4 => { let x = if r.pct(60) { 0 } else { r.next() as u8 }; ops.push(format!("fill({a}, {l}, {x})")); want!(m.fill(a, l, x), inb(a, l).then_some(())); if inb(a, l) { b[a..a + l].fill(x) } }
                5 | 6 | 7 => { let (mut a, mut l) = (a, l); if n > 560 && r.pct(40) { l = 257 + r.below(n / 2 - 256); a = r.below(n - 2 * l + 1) } let d = match r.below(8) { 0 => a.wrapping_add(l).wrapping_sub(1), 1 => a.wrapping_add(l), 2 => a.wrapping_add(l).wrapping_sub(r.below(9)), 3 => a.wrapping_sub(l).wrapping_add(r.below(3)), 4 => a.wrapping_add(r.below(9)), 5 => a.wrapping_sub(r.below(9)), 6 => a.wrapping_add(chunk), _ => off(r) };
                    let ok = inb(a, l) && inb(d, l); ops.push(format!("copy_within(dst {d}, src {a}, {l})")); want!(m.copy_within(d, a, l), ok.then_some(())); if ok { b.copy_within(a..a + l, d) } }
                8 => { let t = match r.below(4) { 0 => n, 1 if kind < 5 => n.saturating_sub(1 + r.below(5)), _ => n + r.below(600) }; ops.push(format!("grow_to({t})")); want!(m.grow_to(t).is_ok(), t >= n); if t > n { b.resize(t, 0) } }
                9 => { let l = l.min(3000); let mut d = vec![0xa5; l]; ops.push(format!("read({a}, {l} bytes)")); let k = m.read(a, &mut d); let most = if a < n { l.min(n - a) } else { 0 };
                    if k > most || (k == 0 && most > 0) { return fail(&ops, format!("read {k} of {most} bytes")) } if k > 0 { want!(d[..k], b[a..a + k]) } }
                10 => { let l = l.min(3000); let mut d = vec![0xa5; l]; ops.push(format!("read_exact({a}, {l} bytes)")); let g = m.read_exact(a, &mut d); want!(g, inb(a, l).then_some(())); if inb(a, l) { want!(d[..], b[a..a + l]) } }
                11 => { ops.push(format!("read_vec({a}, {l})")); let g = m.read_vec(a, l); want!(g, if inb(a, l) { Some(b[a..a + l].to_vec()) } else { None }) }
                12 => { ops.push(format!("fixed reads at {a}")); macro_rules! rd { ($($f:ident $k:expr),*) => { $( { let g = m.$f(a).ok(); want!(g.is_some(), inb(a, $k)); if let Some(g) = g { want!(g[..], b[a..a + $k]) } } )* } } rd!(read_8 1, read_16 2, read_32 4, read_64 8, read_128 16); }
                _ => { let k = *r.pick(&[1usize, 2, 4, 8, 16]); let d = data(r, k); ops.push(format!("write of {k} bytes at {a}")); let g = match k { 1 => m.write_8(a, &d), 2 => m.write_16(a, &d), 4 => m.write_32(a, &d), 8 => m.write_64(a, &d), _ => m.write_128(a, &d) }; want!(g.is_ok(), inb(a, k)); if inb(a, k) { b[a..a + k].copy_from_slice(&d) } }
            }
            v.compared += 1;
            if m.len() != b.len() { return fail(&ops, format!("length {} instead of {}", m.len(), b.len())) }
            let all = m.read_vec(0, b.len());
            if all.as_deref() != Some(&b[..]) { let at = all.as_ref().and_then(|x| (0..b.len()).find(|i| x[*i] != b[*i])); return fail(&ops, format!("contents differ at {at:?}")) }
        }
        v.modules.push(Rc::new(ops.join("; ").into_bytes()));
        Ok(())
    });
    v
}
