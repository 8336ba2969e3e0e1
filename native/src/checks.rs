//! Per-property case generators. A case is determined by (property, seed, number).
use crate::pgen::{self, Cl, Prof, Rng, ScenOpts, ops, rval, scenario};
use crate::refint::Sig;
use crate::world::{self, Act, Arg, Backend, Cfg, Mode, Scenario};
use spec::{Ty, Val};
use std::collections::BTreeMap;
use std::rc::Rc;
use tinywasm::engine::StackConfig;
use wasm_encoder as we;
use wasm_encoder::{BlockType, Instruction as I};

#[derive(Default)]
pub struct Verdict {
    pub fail: Option<String>, pub discarded: bool,
    /// how many observations were compared, what kinds of things were exercised
    pub compared: u64, pub cover: BTreeMap<String, u64>,
    pub modules: Vec<Rc<Vec<u8>>>, pub note: String,
}
pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C25"];
pub const INTS: &[Ty] = &[Ty::I32, Ty::I64];
pub const NUMS: &[Ty] = &[Ty::I32, Ty::I64, Ty::F32, Ty::F64];
pub const REFS: &[Ty] = &[Ty::FuncRef, Ty::ExternRef, Ty::I32, Ty::FuncRef];

pub fn rcfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::default();
    c.backend = match r.below(10) { 0 => Backend::Paged(*r.pick(&[1usize, 8, 64, 4096, 65536])), 1 => Backend::LazyVec, 2 => Backend::LazyPaged(*r.pick(&[4usize, 4096])), 3 => Backend::Odd, _ => Backend::Vec };
    c.rewrite = r.pct(85); c.memopt = r.pct(85); c.archive = r.pct(10); c.weighted = r.pct(10);
    if r.pct(20) { c.cs = Some(StackConfig::dynamic(1, 1024)) }
    if r.pct(20) { let d = StackConfig::dynamic(1 + r.below(64), 1 << 18); c.vs = Some([d, d, d]) }
    c
}
fn quiet() -> Prof { Prof { ops: 3, simd: 0, mem: 0, bulk: 0, table: 0, call: 1, indirect: 0, tail: 0, ctrl: 2, glob: 1, refs: 0, idiom: 0, dead: 3, m64: 25, host: 10, grow: 0, recurse: 5, funcs: 3, stmts: 5, depth: 3, calls: 5, many_locals: 2, loops: 3, oob: 6, types: NUMS.to_vec() } }

pub fn profile(id: &str, r: &mut Rng) -> (Prof, ScenOpts, Cfg) {
    let d = Prof::default();
    let mut o = ScenOpts::default();
    let mut c = rcfg(r);
    let p = match id {
        "C01" => Prof { types: INTS.to_vec(), ops: 20, idiom: 6, ..quiet() },
        "C02" => Prof { ops: 20, ..quiet() },
        "C03" => Prof { types: vec![Ty::V128, Ty::V128, Ty::I32, Ty::I64, Ty::F32, Ty::F64], simd: 20, ..quiet() },
        "C04" => Prof { mem: 20, idiom: 6, oob: 15, m64: 40, simd: 2, types: vec![Ty::I32, Ty::I64, Ty::F32, Ty::F64, Ty::V128], ..quiet() },
        "C05" => { o.objs = 50; o.hostops = 50; o.modules = 1 + r.below(2); Prof { mem: 14, bulk: 10, grow: 5, calls: 10, ..quiet() } }
        "C06" => { o.objs = 50; o.hostops = 40; o.modules = 1 + r.below(2); Prof { mem: 4, bulk: 2, grow: 20, m64: 40, calls: 10, ..quiet() } }
        "C07" => { o.modules = 1 + r.below(2); o.objs = 25; Prof { mem: 4, bulk: 20, m64: 45, oob: 15, grow: 1, calls: 8, ..quiet() } }
        "C08" => { o.modules = 1 + r.below(2); o.objs = 25; o.hostops = 20; Prof { table: 20, refs: 5, indirect: 4, m64: 40, oob: 15, calls: 8, types: vec![Ty::I32, Ty::I64, Ty::FuncRef, Ty::ExternRef], ..quiet() } }
        "C09" => { o.modules = 1 + r.below(3); Prof { call: 14, indirect: 10, tail: 10, recurse: 35, host: 60, funcs: 6, simd: 1, calls: 8, ..quiet() } }
        "C10" => Prof { ctrl: 20, dead: 40, loops: 15, depth: 5, simd: 1, types: pgen::ALL.to_vec(), refs: 1, ..quiet() },
        "C11" => { c.rewrite = r.pct(75); c.memopt = r.pct(75); Prof { idiom: 25, mem: 6, ctrl: 8, glob: 4, bulk: 3, simd: 2, grow: 1, loops: 8, types: if r.pct(50) { NUMS.to_vec() } else { pgen::ALL.to_vec() }, ..quiet() } }
        "C12" => Prof { call: 10, recurse: 60, indirect: 4, tail: 6, host: 40, many_locals: 10, depth: 4, types: pgen::ALL.to_vec(), refs: 1, ..quiet() },
        "C13" => { o.fuel = 100; o.modules = 1 + r.below(2); o.reenter = 25; o.fail = 10; c.weighted = r.pct(40); Prof { loops: 12, call: 8, recurse: 30, host: 40, ..d } }
        "C14" => { o.modules = 1 + r.below(3); o.hostops = 35; o.objs = 60; Prof { glob: 25, refs: 2, host: 20, types: pgen::ALL.to_vec(), ..quiet() } }
        "C16" => { o.modules = 2; o.objs = 80; o.twist = 75; Prof { host: 80, calls: 2, funcs: 3, mem: 2, table: 2, ..d } }
        "C17" => { o.badargs = 30; o.fail = 30; o.hostops = 3; Prof { host: 100, call: 14, calls: 12, types: pgen::ALL.to_vec(), funcs: 6, refs: 1, ..quiet() } }
        "C18" => { o.modules = 1 + r.below(3); o.objs = 40; Prof { bulk: 5, table: 5, glob: 6, refs: 3, mem: 3, host: 30, calls: 3, oob: 30, ..d } }
        "C19" => { c.archive = true; o.modules = 1 + r.below(2); Prof { simd: 6, ..d } }
        "C20" => { o.modules = 1 + r.below(3); o.hostops = 30; o.objs = 40; Prof { types: REFS.to_vec(), refs: 20, table: 10, glob: 6, call: 8, indirect: 8, host: 40, ..quiet() } }
        "C21" => { o.modules = 1 + r.below(2); o.reenter = 70; o.fail = 30; o.fuel = 15; Prof { host: 100, call: 12, mem: 6, glob: 4, oob: 40, calls: 12, ..d } }
        "C22" => { o.hostops = 85; o.objs = 60; Prof { calls: 25, funcs: 2, mem: 4, table: 3, bulk: 2, grow: 1, ..quiet() } }
        _ => { o.modules = 1 + r.below(2); o.hostops = 20; o.reenter = 10; o.fail = 5; o.fuel = 10; d }
    };
    (p, o, c)
}

// ---------------------------------------------------------------- single-instruction modules
#[derive(Clone, Copy)]
enum How { Bits, Nan, V(spec::VK) }
fn how(name: &str) -> How {
    thread_local! { static T: BTreeMap<String, How> = table() }
    fn table() -> BTreeMap<String, How> {
        let mut m = BTreeMap::new();
        macro_rules! nan { ($($n:ident ($($a:ident : $t:ty),*) -> ($($r:ty),*) = $e:expr;)*) => { $( m.insert(stringify!($n).to_string(), How::Nan); )* } }
        macro_rules! v { ($($n:ident ($($a:ident : $t:ty),*) -> $r:ty [$k:ident] = $e:expr;)*) => { $( m.insert(stringify!($n).to_string(), How::V(spec::VK::$k)); )* } }
        spec::float_ops!(nan); spec::farith_ops!(nan); spec::conv_ops!(nan);
        spec::simd_int_ops!(v); spec::simd_mul_ops!(v); spec::simd_float_ops!(v); spec::simd_farith_ops!(v);
        m
    }
    T.with(|t| t.get(name).copied().unwrap_or(How::Bits))
}
fn opname(i: &I) -> String { let s = format!("{i:?}"); s.chars().take_while(|c| c.is_alphanumeric()).collect() }
fn konst(v: Val) -> I<'static> {
    match v { Val::I32(x) => I::I32Const(x as i32), Val::I64(x) => I::I64Const(x as i64), Val::F32(x) => I::F32Const(we::Ieee32::new(x)), Val::F64(x) => I::F64Const(we::Ieee64::new(x)), Val::V(v) => I::V128Const(i128::from_le_bytes(v.0)), _ => panic!() }
}
pub fn et(t: Ty) -> we::ValType { match t { Ty::I32 => we::ValType::I32, Ty::I64 => we::ValType::I64, Ty::F32 => we::ValType::F32, Ty::F64 => we::ValType::F64, Ty::V128 => we::ValType::V128, Ty::FuncRef => we::ValType::FUNCREF, Ty::ExternRef => we::ValType::EXTERNREF } }

/// One function per chosen instruction: operands as parameters, constants, locals or globals, results
/// returned above sentinels (so that consuming too much or too little shows).
fn opmod(r: &mut Rng, cl: &[Cl]) -> (Scenario, Vec<How>, Vec<usize>) {
    let all: Vec<pgen::OpInfo> = ops().into_iter().filter(|o| cl.contains(&o.cl)).collect();
    let (mut types, mut funcs, mut exports, mut code, mut globs) = (we::TypeSection::new(), we::FunctionSection::new(), we::ExportSection::new(), we::CodeSection::new(), we::GlobalSection::new());
    let mut sigs = vec![]; let mut hows = vec![]; let mut keeps = vec![];
    let mut ng = 0;
    for k in 0..24u32 {
        let o = r.pick(&all);
        let mut params: Vec<Ty> = vec![];
        let mut locals: Vec<Ty> = vec![];
        let mut body: Vec<I<'static>> = vec![];
        // where does each operand come from
        let mut src = vec![];
        for t in &o.a {
            src.push(match r.below(10) {
                0..=4 => { params.push(*t); (0u8, params.len() as u32 - 1) }
                5 if !params.is_empty() && params.contains(t) => (0, params.iter().position(|x| x == t).unwrap() as u32),
                6 | 7 => (1, 0),
                8 => { let v = rval(r, *t); globs.global(we::GlobalType { val_type: et(*t), mutable: false, shared: false }, &we::ConstExpr::raw({ use we::Encode; let mut b = vec![]; konst(v).encode(&mut b); b })); ng += 1; (2, ng - 1) }
                _ => { locals.push(*t); (3, locals.len() as u32 - 1) }
            });
        }
        let np = params.len() as u32;
        let sent: Vec<Val> = (0..r.below(3)).map(|_| { let t = *r.pick(&[Ty::I32, Ty::I64, Ty::F64, Ty::V128]); loop { let v = rval(r, t); if spec::same_val(v, v) && !isnan(v) { break v } } }).collect();
        for (t, (s, x)) in o.a.iter().zip(&src) { if *s == 3 { body.push(konst(rval(r, *t))); body.push(I::LocalSet(np + x)); } }
        for s in &sent { body.push(konst(*s)) }
        for (t, (s, x)) in o.a.iter().zip(&src) { body.push(match s { 0 => I::LocalGet(*x), 1 => konst(rval(r, *t)), 2 => I::GlobalGet(*x), _ => I::LocalGet(np + x) }) }
        body.push(o.i.clone());
        // how the result is consumed
        let mut res: Vec<Ty> = sent.iter().map(|v| v.ty()).collect();
        match r.below(6) {
            0 if o.r.len() == 1 => { locals.push(o.r[0]); let l = np + locals.len() as u32 - 1; body.push(I::LocalSet(l)); body.push(I::LocalGet(l)); res.extend(&o.r) }
            1 if o.r.len() == 1 => { locals.push(o.r[0]); let l = np + locals.len() as u32 - 1; body.push(I::LocalTee(l)); res.extend(&o.r) }
            2 if o.r == [Ty::I32] => { body.push(I::If(BlockType::Result(we::ValType::I64))); body.push(I::I64Const(7)); body.push(I::Else); body.push(I::I64Const(9)); body.push(I::End); res.push(Ty::I64) }
            3 if o.r == [Ty::I32] => { locals.push(Ty::I32); let l = np + locals.len() as u32 - 1; body.push(I::LocalSet(l)); body.push(I::Block(BlockType::Result(we::ValType::I64))); body.push(I::I64Const(3)); body.push(I::LocalGet(l)); body.push(I::BrIf(0)); body.push(I::Drop); body.push(I::I64Const(4)); body.push(I::End); res.push(Ty::I64) }
            4 if o.r == [Ty::I32] => { body.push(I::I32Eqz); res.push(Ty::I32) }
            _ => res.extend(&o.r),
        }
        body.push(I::End);
        types.ty().function(params.iter().map(|t| et(*t)), res.iter().map(|t| et(*t)));
        funcs.function(k);
        exports.export(&format!("f{k}"), we::ExportKind::Func, k);
        let mut f = we::Function::new_with_locals_types(locals.iter().map(|t| et(*t)));
        for i in &body { f.instruction(i); }
        code.function(&f);
        sigs.push(Sig { p: params, r: res });
        hows.push(how(&opname(&o.i)));
        keeps.push(sent.len());
    }
    let mut m = we::Module::new();
    m.section(&types).section(&funcs).section(&globs).section(&exports).section(&code);
    let mut acts = vec![Act::Inst { module: 0, defs: vec![], links: vec![], start: true }];
    let mut act_f = vec![usize::MAX];
    for (k, s) in sigs.iter().enumerate() { for _ in 0..6 { acts.push(Act::Call { inst: 0, name: format!("f{k}"), args: s.p.iter().map(|t| Arg::V(rval(r, *t))).collect(), mode: Mode::Direct }); act_f.push(k) } }
    let hows: Vec<How> = act_f.iter().map(|k| if *k == usize::MAX { How::Bits } else { hows[*k] }).collect();
    let keeps = act_f.iter().map(|k| if *k == usize::MAX { 0 } else { keeps[*k] }).collect();
    (Scenario { modules: vec![Rc::new(m.finish())], acts }, hows, keeps)
}
fn isnan(v: Val) -> bool { match v { Val::F32(x) => spec::F32(x).nan(), Val::F64(x) => spec::F64(x).nan(), _ => false } }
fn op_case(r: &mut Rng, cl: &[Cl]) -> Verdict {
    let (mut sc, hows, keeps) = opmod(r, cl);
    if over(&mut sc) { return Verdict { modules: sc.modules, ..Verdict::default() } }
    let cfg = Cfg { rewrite: r.pct(80), ..Cfg::default() };
    let mut v = Verdict { modules: sc.modules.clone(), note: format!("{cfg:?} {:?}", sc.acts), ..Verdict::default() };
    let mut rw = world::RWorld::new(&sc);
    rw.s.nan_stop = false; rw.s.cover = true;
    let mut tw = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| world::TWorld::new(&sc, &cfg))) { Ok(Ok(t)) => t, Ok(Err(e)) => { v.fail = Some(e); return v } Err(p) => { v.fail = Some(format!("parser panicked: {}", world::panic_msg(p))); return v } };
    for (i, a) in sc.acts.iter().enumerate() {
        let vals = world::act_vals(&rw, a);
        let want = rw.act(a);
        let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tw.act(a, &vals))) { Ok(o) => o, Err(p) => world::Obs::Panic(world::panic_msg(p)) };
        let ok = match (&want, &got) {
            (world::Obs::Vals(w), world::Obs::Vals(g)) => w.len() == g.len() && w.iter().zip(g).enumerate().all(|(k, (w, g))| if k < keeps[i] { w == g } else { allows(hows[i], *w, *g) }),
            (w, g) => w == g,
        };
        if !ok { v.fail = Some(format!("act {i} {}: reference {want:?} tinywasm {got:?}", world::show(a))); return v }
        v.compared += 1;
    }
    for (k, n) in &rw.s.seen { *v.cover.entry(k.clone()).or_default() += n }
    v
}
fn allows(h: How, w: Val, g: Val) -> bool {
    use spec::Lane;
    match (h, w, g) {
        (How::Nan, Val::F32(a), Val::F32(b)) => spec::F32(a).allows(spec::F32(b)),
        (How::Nan, Val::F64(a), Val::F64(b)) => spec::F64(a).allows(spec::F64(b)),
        (How::V(k), Val::V(a), Val::V(b)) => spec::v_allows(k, a, b),
        _ => w == g,
    }
}

// ---------------------------------------------------------------- dispatch
pub fn diff(r: &mut Rng, id: &str) -> Verdict {
    let (p, o, cfg) = profile(id, r);
    let sc = scenario(r, &p, &o);
    diff_sc(&sc, &cfg)
}
thread_local! { static OVR: std::cell::RefCell<Vec<(usize, Rc<Vec<u8>>)>> = const { std::cell::RefCell::new(vec![]) }; static ONLY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) } }
/// "k=file" replaces module k of the case (used by the reducer and by replays)
pub fn override_modules(a: &[String]) { for x in a { let (k, f) = x.split_once('=').unwrap(); let b = std::fs::read(f).unwrap(); OVR.with(|o| o.borrow_mut().push((k.parse().unwrap(), Rc::new(b)))) } }
pub fn modules_of(id: &str, seed: u64, k: u64) -> Vec<Rc<Vec<u8>>> { ONLY.with(|o| o.set(true)); let v = case(id, seed, k); ONLY.with(|o| o.set(false)); v.modules }
pub fn over(sc: &mut Scenario) -> bool { OVR.with(|o| for (k, b) in o.borrow().iter() { if *k < sc.modules.len() { sc.modules[*k] = b.clone() } }); ONLY.with(|o| o.get()) }
pub fn diff_sc(sc: &Scenario, cfg: &Cfg) -> Verdict {
    let mut sc = Scenario { modules: sc.modules.clone(), acts: sc.acts.clone() };
    if over(&mut sc) { return Verdict { modules: sc.modules, ..Verdict::default() } }
    let sc = &sc;
    let mut v = Verdict { modules: sc.modules.clone(), note: format!("{cfg:?} {:?}", sc.acts), ..Verdict::default() };
    for b in &sc.modules { if let Err(e) = wasmparser::Validator::new_with_features(wasmparser::WasmFeatures::all()).validate_all(b) { v.note = format!("GENERATOR produced an invalid module: {e}"); v.discarded = true; return v } }
    let out = world::run(sc, cfg, true);
    v.fail = out.fail; v.discarded = out.discarded; v.compared = out.obs.len() as u64;
    for (k, n) in &out.rw.s.seen { *v.cover.entry(k.clone()).or_default() += n }
    for o in &out.obs { let k = match o { world::Obs::Trap(t) => format!("trap {t:?}"), world::Obs::Err(e) => format!("error {e}"), world::Obs::Host(_) => "host error".into(), world::Obs::Vals(_) => "returned".into(), _ => continue }; *v.cover.entry(k).or_default() += 1 }
    v
}
pub fn case(id: &str, seed: u64, k: u64) -> Verdict {
    match std::panic::catch_unwind(|| case_(id, seed, k)) {
        Ok(v) => v,
        Err(p) if p.is::<crate::refint::Discard>() => Verdict { discarded: true, ..Verdict::default() },
        Err(p) => std::panic::resume_unwind(p),
    }
}
fn case_(id: &str, seed: u64, k: u64) -> Verdict {
    let mut h = seed.wrapping_mul(1_000_003);
    for b in id.bytes() { h = world::mix(h, b as u64) }
    let mut r = Rng::new(world::mix(h, k));
    let r = &mut r;
    match id {
        "C01" if k % 4 != 3 => op_case(r, &[Cl::Int]),
        "C02" if k % 4 != 3 => op_case(r, &[Cl::Float, Cl::Conv]),
        "C03" if k % 8 == 7 => crate::custom::relaxed(r),
        "C03" if k % 4 != 3 => op_case(r, &[Cl::Simd]),
        "C05" if k % 4 == 0 => crate::custom::backends(r),
        "C12" if k % 2 == 0 => crate::custom::limits(r),
        "C13" if k % 8 == 0 => crate::custom::slices(r),
        "C15" => crate::custom::stores(r),
        "C17" if k % 4 == 0 => crate::custom::typed(r),
        "C19" if k % 4 == 0 => crate::custom::archive(r),
        "C25" => crate::custom::metadata(r),
        _ => diff(r, id),
    }
}
