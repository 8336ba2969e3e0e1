//! The same scenario run against the reference semantics and against tinywasm's public API, act by
//! act, comparing every observation and every exported object's contents after each act.
use crate::refint::{GlobTy, ImpTy, Kind, MemTy, RFunc, RGlob, RMem, RModule, RStore, RTab, Sig, Stop, TabTy, Trap};
use spec::{Ty, V128, Val};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;
use tinywasm::engine::{Config, StackConfig};
use tinywasm::types::{ExternRef, FuncRef, FuncType, GlobalType, MemoryArch, MemoryType, TableType, WasmType, WasmValue};
use tinywasm::{Engine, ExecProgress, Extern, FuncContext, Function, Global, HostFunction, Imports, Memory, ModuleInstance, Store, Table};

// ---------------------------------------------------------------- host function behaviours
#[derive(Clone, PartialEq, Debug)]
pub enum Ev { Enter(u32, Vec<Val>), CallRes(Result<Vec<Val>, String>), Flag(bool), Num(Option<u64>), Bytes(Option<Vec<u8>>) }
pub enum HErr { Stop(Stop), Msg(String) }
pub trait Ctx {
    fn log(&mut self, e: Ev);
    fn call(&mut self, inst: usize, name: &str, args: &[Val]) -> Result<Vec<Val>, HErr>;
    fn mem_write(&mut self, inst: usize, name: &str, off: usize, b: &[u8]) -> bool;
    fn mem_read(&mut self, inst: usize, name: &str, off: usize, n: usize) -> Option<Vec<u8>>;
    fn global_set(&mut self, inst: usize, name: &str, v: Val) -> bool;
    fn mem_grow(&mut self, inst: usize, name: &str, delta: u64) -> Option<u64>;
    /// whether the charge was taken off what was left
    fn charge(&mut self, fuel: u32) -> bool;
}
#[derive(Clone, Debug)]
pub enum Step {
    Call { inst: usize, name: String, args: Vec<Val>, swallow: bool },
    /// call with the host function's own arguments
    Forward { inst: usize, name: String, swallow: bool },
    MemWrite(usize, String, usize, Vec<u8>),
    MemRead(usize, String, usize, usize),
    MemGrow(usize, String, u64),
    GlobalSet(usize, String, Val),
    Charge(u32),
    Fail(String),
    /// only while the budget lasts: stops mutual recursion between host and wasm
    Limit(u32),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ret { Det(u64), Bad(u32), Args }
#[derive(Clone, Debug)]
pub struct Beh { pub id: u32, pub steps: Vec<Step>, pub ret: Ret }

pub fn mix(mut h: u64, x: u64) -> u64 { h ^= x.wrapping_mul(0x9E37_79B9_7F4A_7C15); h = (h ^ (h >> 31)).wrapping_mul(0xBF58_476D_1CE4_E5B9); h ^ (h >> 29) }
pub fn det(t: Ty, h: u64) -> Val {
    match t {
        Ty::I32 => Val::I32(h as u32), Ty::I64 => Val::I64(h),
        Ty::F32 => Val::F32((h as i16 as f32).to_bits()), Ty::F64 => Val::F64((h as i32 as f64).to_bits()),
        Ty::V128 => { let mut b = [0; 16]; b[..8].copy_from_slice(&h.to_le_bytes()); b[8..].copy_from_slice(&mix(h, 7).to_le_bytes()); Val::V(V128(b)) }
        Ty::FuncRef => Val::FuncRef(None), Ty::ExternRef => Val::ExternRef(if h & 1 == 0 { None } else { Some((h >> 40) as u32) }),
    }
}
fn stop_class(s: &Stop) -> String { match s { Stop::Trap(t) => format!("trap {t:?}"), Stop::Host(m) => format!("host {m}"), Stop::Budget => "budget".into() } }
impl Beh {
    pub fn run(&self, ctx: &mut dyn Ctx, sig: &Sig, args: &[Val]) -> Result<Vec<Val>, HErr> {
        ctx.log(Ev::Enter(self.id, args.to_vec()));
        for s in &self.steps {
            match s {
                Step::Call { inst, name, args, swallow } => Self::sub(ctx, *inst, name, args, *swallow)?,
                Step::Forward { inst, name, swallow } => Self::sub(ctx, *inst, name, args, *swallow)?,
                Step::MemWrite(i, n, o, b) => { let r = ctx.mem_write(*i, n, *o, b); ctx.log(Ev::Flag(r)) }
                Step::MemRead(i, n, o, l) => { let r = ctx.mem_read(*i, n, *o, *l); ctx.log(Ev::Bytes(r)) }
                Step::MemGrow(i, n, d) => { let r = ctx.mem_grow(*i, n, *d); ctx.log(Ev::Num(r)) }
                Step::GlobalSet(i, n, v) => { let r = ctx.global_set(*i, n, *v); ctx.log(Ev::Flag(r)) }
                Step::Charge(f) => { let r = ctx.charge(*f); ctx.log(Ev::Flag(r)) }
                Step::Fail(m) => return Err(HErr::Msg(m.clone())),
                Step::Limit(a) => if let Some(Val::I32(x)) = args.first() { if *x & a == 0 { break } },
            }
        }
        Ok(match &self.ret {
            Ret::Det(salt) => {
                let mut h = *salt;
                for a in args { h = mix(h, match a { Val::I32(x) | Val::F32(x) => *x as u64, Val::I64(x) | Val::F64(x) => *x, Val::V(v) => u128::from_le_bytes(v.0) as u64, Val::FuncRef(r) => r.is_some() as u64, Val::ExternRef(r) => r.map(|x| x as u64 + 1).unwrap_or(0) }) }
                sig.r.iter().enumerate().map(|(i, t)| {
                    // references handed in are handed out again, so that identity is exercised
                    if *t == Ty::FuncRef { if let Some(r) = args.iter().rev().find(|a| a.ty() == Ty::FuncRef) { return *r } }
                    det(*t, mix(h, i as u64)) }).collect()
            }
            Ret::Args => sig.r.iter().map(|t| args.iter().find(|a| a.ty() == *t).copied().unwrap_or(Val::default(*t))).collect(),
            Ret::Bad(k) => {
                let mut v: Vec<Val> = sig.r.iter().map(|t| det(*t, 5)).collect();
                match k % 3 {
                    0 => v.push(Val::I32(1)),
                    1 if !v.is_empty() => { v.pop(); }
                    _ => if let Some(x) = v.last_mut() { *x = if x.ty() == Ty::I32 { Val::I64(1) } else { Val::I32(1) } } else { v.push(Val::I64(3)) },
                }
                v
            }
        })
    }
    fn sub(ctx: &mut dyn Ctx, inst: usize, name: &str, args: &[Val], swallow: bool) -> Result<(), HErr> {
        match ctx.call(inst, name, args) {
            Ok(v) => { ctx.log(Ev::CallRes(Ok(v))); Ok(()) }
            Err(HErr::Stop(Stop::Budget)) => Err(HErr::Stop(Stop::Budget)),
            Err(e) => {
                let c = match &e { HErr::Stop(s) => stop_class(s), HErr::Msg(_) => "rejected".into() };
                ctx.log(Ev::CallRes(Err(c)));
                if swallow { Ok(()) } else { Err(e) }
            }
        }
    }
}

// ---------------------------------------------------------------- scenarios
#[derive(Clone, Debug, PartialEq)]
pub enum Arg { V(Val), /** the k-th distinct non-null function reference seen so far (null if none) */ Seen(usize) }
impl From<Val> for Arg { fn from(v: Val) -> Arg { Arg::V(v) } }
#[derive(Clone, Debug)]
pub enum ObjRef { Obj(usize), Exp(usize, String) }
#[derive(Clone, Debug)]
pub enum Mode { Direct, Fuel(Vec<u32>) }
#[derive(Clone, Debug)]
pub enum MemOp { Len, Pages, Read(usize, usize), ReadVec(usize, usize), ReadExact(usize, usize), Write(usize, Vec<u8>), WriteSome(usize, Vec<u8>), Fill(usize, usize, u8), Copy { src: usize, dst: usize, len: usize }, Grow(i64), CStr(usize, usize), CStrNul(usize, usize), Str(usize, usize), Js(usize, usize), WriteCStr(usize, String), CursorRead(u64, usize), CursorWrite(u64, Vec<u8>) }
#[derive(Clone, Debug)]
pub enum TabOp { Size, Get(u32), Load(usize, usize), Set(u32, Arg), Copy { src: usize, dst: usize, len: usize }, Grow(i32, Arg) }
#[derive(Clone, Debug)]
pub enum Act {
    NewHost(Sig, Beh), NewMem(MemTy), NewTable(TabTy, Arg), NewGlobal(GlobTy, Arg),
    Inst { module: usize, defs: Vec<(String, String, ObjRef)>, links: Vec<(String, usize)>, start: bool },
    Start(usize),
    Call { inst: usize, name: String, args: Vec<Arg>, mode: Mode },
    CallObj { obj: ObjRef, args: Vec<Arg>, mode: Mode },
    Mem(ObjRef, MemOp), Tab(ObjRef, TabOp), GlobGet(ObjRef), GlobSet(ObjRef, Arg),
}
#[derive(Clone, Debug)]
pub struct Scenario { pub modules: Vec<Rc<Vec<u8>>>, pub acts: Vec<Act> }

#[derive(Clone, Debug, PartialEq)]
pub enum Obs { Unit, Vals(Vec<Val>), Trap(Trap), Host(String), Err(&'static str), Num(u64), NoNum, Bytes(Vec<u8>), Skip, Budget, Panic(String), Weird(String) }
/// (object name, contents) of everything reachable from the host
#[derive(Clone, Debug, PartialEq)]
pub enum Snap { Mem(u64, Vec<u8>), Tab(Vec<Val>), Glob(Val), None }

fn of_stop(s: Stop) -> Obs { match s { Stop::Trap(t) => Obs::Trap(t), Stop::Host(m) => Obs::Host(m), Stop::Budget => Obs::Budget } }

// ---------------------------------------------------------------- reference side
pub struct RWorld { pub s: RStore, pub objs: Vec<(Kind, usize)>, pub seen: Vec<u32>, mods: Vec<Rc<RModule>> }
fn func_ty_of(m: &RModule, t: u32) -> Sig { m.types[t as usize].clone() }
impl RWorld {
    pub fn new(sc: &Scenario) -> RWorld {
        let s = RStore { max_steps: 2_000_000, max_depth: 300, nan_stop: true, ..RStore::default() };
        RWorld { s, objs: vec![], seen: vec![], mods: sc.modules.iter().map(|b| Rc::new(RModule::decode(b))).collect() }
    }
    fn note(&mut self, v: &Val) { if let Val::FuncRef(Some(x)) = v { if !self.seen.contains(x) { self.seen.push(*x) } } }
    fn arg(&self, a: &Arg) -> Val { match a { Arg::V(v) => *v, Arg::Seen(k) => Val::FuncRef(if self.seen.is_empty() { None } else { Some(self.seen[k % self.seen.len()]) }) } }
    fn res(&self, o: &ObjRef) -> Option<(Kind, usize)> {
        match o { ObjRef::Obj(i) => self.objs.get(*i).copied(),
            ObjRef::Exp(i, n) => self.s.insts[(*self.s.alias.get(*i)?)?].export(n) }
    }
    fn call(&mut self, f: usize, args: Vec<Val>) -> Obs {
        if self.s.funcs[f].sig().p != args.iter().map(|a| a.ty()).collect::<Vec<_>>() { return Obs::Err("args"); }
        self.s.steps = 0;
        match self.s.invoke(f, args) { Ok(v) => { for x in &v { self.note(x) } Obs::Vals(v) } Err(s) => of_stop(s) }
    }
    fn link(&self, m: &RModule, defs: &[(String, String, ObjRef)], links: &[(String, usize)]) -> Result<Vec<(Kind, usize)>, &'static str> {
        let mut out = vec![];
        for (mo, na, ty) in &m.imports {
            let found = match defs.iter().rev().find(|d| d.0 == *mo && d.1 == *na).map(|d| self.res(&d.2)) {
                Some(x) => x,
                None => { let Some((_, i)) = links.iter().rev().find(|l| l.0 == *mo) else { return Err("unknown") };
                    self.s.alias.get(*i).copied().flatten().and_then(|i| self.s.insts[i].export(na)) }
            };
            let Some((k, a)) = found else { return Err("unknown") };
            let ok = match (ty, k) {
                (ImpTy::F(t), Kind::F) => *self.s.funcs[a].sig() == func_ty_of(m, *t),
                (ImpTy::G(t), Kind::G) => self.s.globs[a].ty == *t,
                (ImpTy::T(t), Kind::T) => { let x = &self.s.tabs[a]; x.ty.t64 == t.t64 && x.ty.el == t.el && x.el.len() as u64 >= t.min && lim(t.max, x.ty.max) }
                (ImpTy::M(t), Kind::M) => { let x = &self.s.mems[a]; x.ty.m64 == t.m64 && x.ty.page == t.page && x.bytes.len() as u64 / t.page >= t.min && lim(t.max, x.ty.max) }
                _ => false,
            };
            if !ok { return Err("incompatible"); }
            out.push((k, a));
        }
        Ok(out)
    }
    pub fn act(&mut self, a: &Act) -> Obs {
        match a {
            Act::NewHost(sig, beh) => { self.s.funcs.push(RFunc::Host { sig: sig.clone(), beh: Rc::new(beh.clone()) }); self.objs.push((Kind::F, self.s.funcs.len() - 1)); Obs::Unit }
            Act::NewMem(t) => { self.s.mems.push(RMem { ty: *t, bytes: vec![0; (t.min * t.page) as usize] }); self.objs.push((Kind::M, self.s.mems.len() - 1)); Obs::Unit }
            Act::NewTable(t, init) => { let (Val::FuncRef(r) | Val::ExternRef(r)) = self.arg(init) else { panic!() }; self.s.tabs.push(RTab { ty: *t, el: vec![r; t.min as usize] }); self.objs.push((Kind::T, self.s.tabs.len() - 1)); Obs::Unit }
            Act::NewGlobal(t, v) => { let val = self.arg(v); self.s.globs.push(RGlob { ty: *t, val }); self.objs.push((Kind::G, self.s.globs.len() - 1)); Obs::Unit }
            Act::Inst { module, defs, links, start } => {
                let m = self.mods[*module].clone();
                match self.link(&m, defs, links) {
                    Err(e) => { self.s.alias.push(None); Obs::Err(e) }
                    Ok(imp) => {
                        // the instance becomes nameable only after its start function returned
                        let slot = self.s.alias.len();
                        self.s.alias.push(None);
                        let (i, r) = self.s.instantiate(m.clone(), &imp);
                        if let Err(s) = r { return of_stop(s); }
                        self.s.steps = 0;
                        if *start { if let Some(f) = m.start { let f = self.s.insts[i].f[f as usize]; if let Err(s) = self.s.invoke(f, vec![]) { return of_stop(s) } } }
                        self.s.alias[slot] = Some(i);
                        Obs::Unit
                    }
                }
            }
            Act::Start(i) => {
                let Some(i) = self.s.alias.get(*i).copied().flatten() else { return Obs::Skip };
                self.s.steps = 0;
                match self.s.insts[i].m.start { None => Obs::NoNum, Some(f) => { let f = self.s.insts[i].f[f as usize]; match self.s.invoke(f, vec![]) { Ok(_) => Obs::Unit, Err(s) => of_stop(s) } } }
            }
            Act::Call { inst, name, args, .. } => {
                let Some(i) = self.s.alias.get(*inst).copied().flatten() else { return Obs::Skip };
                match self.s.insts[i].export(name) { Some((Kind::F, f)) => { let v = args.iter().map(|a| self.arg(a)).collect(); self.call(f, v) } _ => Obs::Err("export") }
            }
            Act::CallObj { obj, args, .. } => match self.res(obj) { Some((Kind::F, f)) => { let v = args.iter().map(|a| self.arg(a)).collect(); self.call(f, v) } _ => Obs::Skip },
            Act::Mem(o, op) => { let Some((Kind::M, m)) = self.res(o) else { return Obs::Skip }; self.mem(m, op) }
            Act::Tab(o, op) => { let Some((Kind::T, t)) = self.res(o) else { return Obs::Skip }; self.tab(t, op) }
            Act::GlobGet(o) => { let Some((Kind::G, g)) = self.res(o) else { return Obs::Skip }; let v = self.s.globs[g].val; self.note(&v); Obs::Vals(vec![v]) }
            Act::GlobSet(o, a) => {
                let Some((Kind::G, g)) = self.res(o) else { return Obs::Skip };
                let v = self.arg(a);
                let g = &mut self.s.globs[g];
                if !g.ty.mutable || g.ty.ty != v.ty() { return Obs::Err("global"); }
                g.val = v;
                Obs::Unit
            }
        }
    }
    fn mem(&mut self, m: usize, op: &MemOp) -> Obs {
        let page = self.s.mems[m].ty.page;
        let b = &mut self.s.mems[m].bytes;
        let n = b.len();
        let inb = |o: usize, l: usize| o as u128 + l as u128 <= n as u128;
        let oob = Obs::Trap(Trap::MemOob);
        match op {
            MemOp::Len => Obs::Num(n as u64),
            MemOp::Pages => Obs::Num(n as u64 / page),
            MemOp::Read(o, l) => { if *o >= n { Obs::Bytes(vec![]) } else { Obs::Bytes(b[*o..(*o).saturating_add(*l).min(n)].to_vec()) } }
            MemOp::CursorRead(o, l) => { if *o >= n as u64 { Obs::Bytes(vec![]) } else { let o = *o as usize; Obs::Bytes(b[o..o.saturating_add(*l).min(n)].to_vec()) } }
            MemOp::ReadVec(o, l) | MemOp::ReadExact(o, l) => if inb(*o, *l) { Obs::Bytes(b[*o..o + l].to_vec()) } else { oob },
            MemOp::Write(o, s) => if inb(*o, s.len()) { b[*o..o + s.len()].copy_from_slice(s); Obs::Unit } else { oob },
            // the cursor and `write` may be short only at the end of the memory: prefix that fits is written
            MemOp::WriteSome(o, s) => { if *o < n { let l = s.len().min(n - o); b[*o..o + l].copy_from_slice(&s[..l]); Obs::Num(l as u64) } else { Obs::Num(0) } }
            MemOp::CursorWrite(o, s) => { if *o < n as u64 { let o = *o as usize; let l = s.len().min(n - o); b[o..o + l].copy_from_slice(&s[..l]); Obs::Num(l as u64) } else { Obs::Num(0) } }
            MemOp::Fill(o, l, v) => if inb(*o, *l) { b[*o..o + l].fill(*v); Obs::Unit } else { oob },
            MemOp::Copy { src, dst, len } => if inb(*src, *len) && inb(*dst, *len) { b.copy_within(*src..src + len, *dst); Obs::Unit } else { oob },
            MemOp::Grow(d) => { if *d < 0 { return Obs::NoNum; } match self.s.mem_grow(m, *d as u64) { Some(x) => Obs::Num(x), None => Obs::NoNum } }
            MemOp::CStr(o, l) => { if !inb(*o, *l) { return oob; } let s = &b[*o..o + l]; match s.iter().position(|x| *x == 0) { Some(p) if p + 1 == s.len() => Obs::Bytes(s[..p].to_vec()), _ => Obs::Err("str") } }
            MemOp::CStrNul(o, l) => { if !inb(*o, *l) { return oob; } let s = &b[*o..o + l]; match s.iter().position(|x| *x == 0) { Some(p) => Obs::Bytes(s[..p].to_vec()), _ => Obs::Err("str") } }
            MemOp::Str(o, l) => { if !inb(*o, *l) { return oob; } match std::str::from_utf8(&b[*o..o + l]) { Ok(s) => Obs::Bytes(s.as_bytes().to_vec()), Err(_) => Obs::Err("str") } }
            MemOp::Js(o, l) => { if !inb(*o, *l) { return oob; } let u: Vec<u16> = b[*o..o + l].chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect(); match String::from_utf16(&u) { Ok(s) => Obs::Bytes(s.into_bytes()), Err(_) => Obs::Err("str") } }
            MemOp::WriteCStr(o, s) => { let mut v = s.clone().into_bytes(); v.push(0); if inb(*o, v.len()) { b[*o..o + v.len()].copy_from_slice(&v); Obs::Unit } else { oob } }
        }
    }
    fn tab(&mut self, t: usize, op: &TabOp) -> Obs {
        let el = self.s.tabs[t].ty.el;
        let n = self.s.tabs[t].el.len();
        let oob = Obs::Trap(Trap::TableOob);
        let rv = |r: Option<u32>| if el == Ty::FuncRef { Val::FuncRef(r) } else { Val::ExternRef(r) };
        match op {
            TabOp::Size => Obs::Num(n as u64),
            TabOp::Get(i) => if (*i as usize) < n { let v = rv(self.s.tabs[t].el[*i as usize]); self.note(&v); Obs::Vals(vec![v]) } else { oob },
            TabOp::Load(o, l) => if *o as u128 + *l as u128 <= n as u128 { let v: Vec<Val> = self.s.tabs[t].el[*o..o + l].iter().map(|r| rv(*r)).collect(); for x in &v { self.note(x) } Obs::Vals(v) } else { oob },
            TabOp::Set(i, a) => { let v = self.arg(a); if v.ty() != el { return Obs::Err("tabty"); } if (*i as usize) < n { let (Val::FuncRef(r) | Val::ExternRef(r)) = v else { panic!() }; self.s.tabs[t].el[*i as usize] = r; Obs::Unit } else { oob } }
            TabOp::Copy { src, dst, len } => if *src as u128 + *len as u128 <= n as u128 && *dst as u128 + *len as u128 <= n as u128 { self.s.tabs[t].el.copy_within(*src..src + len, *dst); Obs::Unit } else { oob },
            TabOp::Grow(d, a) => { let v = self.arg(a); if v.ty() != el { return Obs::Err("tabty"); } if *d < 0 { return Obs::NoNum; } let (Val::FuncRef(r) | Val::ExternRef(r)) = v else { panic!() }; match self.s.tab_grow(t, *d as u64, r) { Some(x) => Obs::Num(x), None => Obs::NoNum } }
        }
    }
    pub fn snap(&mut self) -> BTreeMap<String, Snap> {
        let mut keys: Vec<(String, (Kind, usize))> = self.objs.iter().enumerate().map(|(i, o)| (format!("obj{i}"), *o)).collect();
        for (w, i) in self.s.alias.iter().enumerate() { if let Some(i) = i { for (n, _, _) in &self.s.insts[*i].m.exports { if let Some(x) = self.s.insts[*i].export(n) { keys.push((format!("{w}.{n}"), x)) } } } }
        let mut out = BTreeMap::new();
        for (k, (kind, a)) in keys {
            let s = match kind { Kind::F => continue,
                Kind::M => Snap::Mem(self.s.mems[a].bytes.len() as u64 / self.s.mems[a].ty.page, self.s.mems[a].bytes.clone()),
                Kind::T => { let el = self.s.tabs[a].ty.el; Snap::Tab(self.s.tabs[a].el.iter().map(|r| if el == Ty::FuncRef { Val::FuncRef(*r) } else { Val::ExternRef(*r) }).collect()) }
                Kind::G => Snap::Glob(self.s.globs[a].val) };
            out.insert(k, s);
        }
        out
    }
}
/// limits: the import's maximum, if any, bounds the actual maximum
fn lim(want: Option<u64>, actual: Option<u64>) -> bool { match (want, actual) { (None, _) => true, (Some(_), None) => false, (Some(w), Some(a)) => a <= w } }

// ---------------------------------------------------------------- tinywasm side
pub fn wty(t: Ty) -> WasmType { match t { Ty::I32 => WasmType::I32, Ty::I64 => WasmType::I64, Ty::F32 => WasmType::F32, Ty::F64 => WasmType::F64, Ty::V128 => WasmType::V128, Ty::FuncRef => WasmType::RefFunc, Ty::ExternRef => WasmType::RefExtern } }
pub fn tval(v: &WasmValue) -> Val {
    match v { WasmValue::I32(x) => Val::I32(*x as u32), WasmValue::I64(x) => Val::I64(*x as u64), WasmValue::F32(x) => Val::F32(x.to_bits()), WasmValue::F64(x) => Val::F64(x.to_bits()),
        WasmValue::V128(b) => Val::V(V128(*b)), WasmValue::RefFunc(r) => Val::FuncRef(r.addr()), WasmValue::RefExtern(r) => Val::ExternRef(r.addr()) }
}
pub fn wval(v: &Val) -> WasmValue {
    match v { Val::I32(x) => WasmValue::I32(*x as i32), Val::I64(x) => WasmValue::I64(*x as i64), Val::F32(x) => WasmValue::F32(f32::from_bits(*x)), Val::F64(x) => WasmValue::F64(f64::from_bits(*x)),
        Val::V(v) => WasmValue::V128(v.0), Val::FuncRef(r) => WasmValue::RefFunc(FuncRef::new(*r)), Val::ExternRef(r) => WasmValue::RefExtern(ExternRef::new(*r)) }
}
pub fn fty(s: &Sig) -> FuncType { FuncType::new(&s.p.iter().map(|t| wty(*t)).collect::<Vec<_>>(), &s.r.iter().map(|t| wty(*t)).collect::<Vec<_>>()) }
pub fn mty(t: &MemTy) -> MemoryType { MemoryType::default().with_arch(if t.m64 { MemoryArch::I64 } else { MemoryArch::I32 }).with_page_count_initial(t.min).with_page_count_max(t.max).with_page_size(Some(t.page)) }
pub fn tty(t: &TabTy) -> TableType { if t.t64 { TableType::new64(wty(t.el), t.min, t.max) } else { TableType::new(wty(t.el), t.min, t.max) } }

pub fn of_trap(t: &tinywasm::Trap) -> Obs {
    use tinywasm::Trap as T;
    Obs::Trap(match t {
        T::Unreachable => Trap::Unreachable, T::MemoryOutOfBounds { .. } => Trap::MemOob, T::TableOutOfBounds { .. } => Trap::TableOob, T::DivisionByZero => Trap::DivZero,
        T::InvalidConversionToInt => Trap::BadConv, T::IntegerOverflow => Trap::Overflow, T::CallStackOverflow | T::ValueStackOverflow => Trap::Stack, T::OutOfMemory => Trap::Oom,
        T::UndefinedElement { .. } => Trap::UndefElem, T::UninitializedElement { .. } => Trap::UninitElem, T::IndirectCallTypeMismatch { .. } => Trap::SigMismatch,
        T::HostFunction(e) => return match e.downcast_ref::<tinywasm::Error>() { Some(e) => of_err(e), None => Obs::Host(e.to_string()) },
        T::InvalidStore => return Obs::Err("store"),
        T::Other("invalid table value type") => return Obs::Err("tabty"),
        t => return Obs::Weird(format!("{t:?}")),
    })
}
pub fn of_err(e: &tinywasm::Error) -> Obs {
    use tinywasm::{Error as E, LinkingError as L};
    match e {
        E::Trap(t) => of_trap(t),
        E::Linker(L::UnknownImport { .. }) => Obs::Err("unknown"),
        E::Linker(L::IncompatibleImportType { .. }) => Obs::Err("incompatible"),
        E::Linker(_) => Obs::Err("linker"),
        E::InvalidHostFnReturn { .. } => Obs::Host("bad-return".into()),
        E::Other(m) if m.starts_with("host:") => Obs::Host(m.clone()),
        E::Other(m) if m.starts_with("param count mismatch") || m == "Type mismatch" => Obs::Err("args"),
        E::Other(m) if m.starts_with("Invalid C-style") || m.starts_with("Invalid UTF") => Obs::Err("str"),
        E::Other(m) if m == "global is immutable" || m == "invalid global value type" => Obs::Err("global"),
        e => Obs::Weird(format!("{e:?}")),
    }
}

type Insts = Rc<RefCell<Vec<Option<ModuleInstance>>>>;
#[derive(Default)]
struct Shared { trace: Vec<Ev> }
struct TCtx<'a, 'b> { cx: &'a mut FuncContext<'b>, insts: Insts, sh: Rc<RefCell<Shared>>, err: Option<tinywasm::Error> }
impl TCtx<'_, '_> {
    fn inst(&self, i: usize) -> Option<ModuleInstance> { self.insts.borrow().get(i).cloned().flatten() }
}
impl Ctx for TCtx<'_, '_> {
    fn log(&mut self, e: Ev) { self.sh.borrow_mut().trace.push(e) }
    fn call(&mut self, inst: usize, name: &str, args: &[Val]) -> Result<Vec<Val>, HErr> {
        let Some(i) = self.inst(inst) else { return Err(HErr::Msg("host: no such export".into())) };
        let Ok(f) = i.func_untyped(self.cx.store(), name) else { return Err(HErr::Msg("host: no such export".into())) };
        match self.cx.call_untyped(&f, &args.iter().map(wval).collect::<Vec<_>>()) {
            Ok(v) => Ok(v.iter().map(tval).collect()),
            Err(e) => {
                let r = match of_err(&e) { Obs::Trap(t) => HErr::Stop(Stop::Trap(t)), Obs::Host(m) => HErr::Stop(Stop::Host(m)), Obs::Err(_) => HErr::Msg("host: bad args".into()), o => HErr::Stop(Stop::Host(format!("{o:?}"))) };
                self.err = Some(e);
                Err(r)
            }
        }
    }
    fn mem_write(&mut self, inst: usize, name: &str, off: usize, b: &[u8]) -> bool {
        let Some(m) = self.inst(inst).and_then(|i| i.memory(name).ok()) else { return false };
        m.copy_from_slice(self.cx.store_mut(), off, b).is_ok()
    }
    fn mem_read(&mut self, inst: usize, name: &str, off: usize, n: usize) -> Option<Vec<u8>> {
        self.inst(inst)?.memory(name).ok()?.read_vec(self.cx.store(), off, n).ok()
    }
    fn global_set(&mut self, inst: usize, name: &str, v: Val) -> bool {
        let Some(i) = self.inst(inst) else { return false };
        i.global_set(self.cx.store_mut(), name, wval(&v)).is_ok()
    }
    fn mem_grow(&mut self, inst: usize, name: &str, delta: u64) -> Option<u64> {
        self.inst(inst)?.memory(name).ok()?.grow(self.cx.store_mut(), delta as i64).ok()?.map(|x| x as u64)
    }
    fn charge(&mut self, fuel: u32) -> bool { let left = self.cx.remaining_fuel(); self.cx.charge_fuel(fuel); self.cx.remaining_fuel() == left.saturating_sub(fuel) }
}

#[derive(Clone)]
enum TObj { F(Function), M(Memory), T(Table), G(Global) }
pub struct TWorld { pub store: Store, insts: Insts, objs: Vec<TObj>, sh: Rc<RefCell<Shared>>, mods: Vec<tinywasm::Module>,
    /// reference-store function index <-> tinywasm function address
    r2t: HashMap<u32, u32>, t2r: HashMap<u32, u32> }
impl TWorld {
    pub fn inst(&self, k: usize) -> Option<ModuleInstance> { self.insts.borrow().get(k).cloned().flatten() }
    pub fn new(sc: &Scenario, cfg: &Cfg) -> Result<TWorld, String> {
        let mut mods = vec![];
        for b in &sc.modules {
            let m = cfg.parser().parse_module_bytes(&b[..]).map_err(|e| format!("parse: {e:?}"))?;
            let m = if cfg.archive { let bytes = m.serialize_twasm().map_err(|e| format!("archive: {e:?}"))?; tinywasm::Module::try_from_twasm(&bytes).map_err(|e| format!("unarchive: {e:?}"))? } else { m };
            mods.push(m);
        }
        Ok(TWorld { store: Store::new(Engine::new(cfg.config())), insts: Default::default(), objs: vec![], sh: Default::default(), mods, r2t: HashMap::new(), t2r: HashMap::new() })
    }
    fn arg(&self, r: &Val) -> Val { match r { Val::FuncRef(Some(x)) => Val::FuncRef(Some(*self.r2t.get(x).expect("unseen function reference"))), v => *v } }
    fn res(&self, o: &ObjRef) -> Option<TObj> {
        match o { ObjRef::Obj(i) => self.objs.get(*i).cloned(), ObjRef::Exp(i, n) => { let i = self.insts.borrow().get(*i).cloned()??; self.exp(&i, n) } }
    }
    fn exp(&self, i: &ModuleInstance, n: &str) -> Option<TObj> {
        if let Ok(f) = i.func_untyped(&self.store, n) { return Some(TObj::F(f)); }
        if let Ok(m) = i.memory(n) { return Some(TObj::M(m)); }
        if let Ok(t) = i.table(n) { return Some(TObj::T(t)); }
        i.global(n).ok().map(TObj::G)
    }
    fn call(&mut self, f: &Function, args: Vec<Val>, mode: &Mode) -> Obs {
        let args: Vec<WasmValue> = args.iter().map(wval).collect();
        let r = match mode {
            Mode::Direct => f.call(&mut self.store, &args),
            Mode::Fuel(sl) => match f.call_resumable(&mut self.store, &args) {
                Err(e) => Err(e),
                Ok(mut x) => {
                    let mut i = 0;
                    let r = loop {
                        let n = sl[i % sl.len()];
                        let p = if n % 7 == 3 { x.resume_with_time_budget(std::time::Duration::from_nanos(n as u64 * 20)) } else { x.resume_with_fuel(n) };
                        match p { Ok(ExecProgress::Completed(v)) => break Ok(v), Ok(ExecProgress::Suspended) => {} Err(e) => break Err(e) }
                        i += 1;
                        if i > 2_000_000 { return Obs::Weird("no progress under fuel".into()) }
                    };
                    // a finished execution stays finished
                    if x.resume_with_fuel(1000).is_ok() { return Obs::Weird(format!("resumed after the end: {r:?}")) }
                    r
                }
            },
        };
        match r { Ok(v) => Obs::Vals(v.iter().map(tval).collect()), Err(e) => of_err(&e) }
    }
    /// `vals`: the reference's concrete argument values for this act
    pub fn act(&mut self, a: &Act, vals: &[Val]) -> Obs {
        let vals: Vec<Val> = vals.iter().map(|v| self.arg(v)).collect();
        match a {
            Act::NewHost(sig, beh) => {
                let (beh, sg, insts, sh) = (beh.clone(), sig.clone(), self.insts.clone(), self.sh.clone());
                let f = HostFunction::from_untyped(&mut self.store, &fty(sig), move |mut cx, args| {
                    let args: Vec<Val> = args.iter().map(tval).collect();
                    let mut t = TCtx { cx: &mut cx, insts: insts.clone(), sh: sh.clone(), err: None };
                    match beh.run(&mut t, &sg, &args) {
                        Ok(v) => Ok(v.iter().map(wval).collect()),
                        Err(HErr::Msg(m)) => Err(tinywasm::Error::Other(if m.starts_with("host:") { m } else { format!("host:{m}") })),
                        Err(HErr::Stop(_)) => Err(t.err.take().unwrap()),
                    }
                });
                self.objs.push(TObj::F(f));
                Obs::Unit
            }
            Act::NewMem(t) => match Memory::new(&mut self.store, mty(t)) { Ok(m) => { self.objs.push(TObj::M(m)); Obs::Unit } Err(e) => of_err(&e) },
            Act::NewTable(t, _) => match Table::new(&mut self.store, tty(t), wval(&vals[0])) { Ok(m) => { self.objs.push(TObj::T(m)); Obs::Unit } Err(e) => of_err(&e) },
            Act::NewGlobal(t, _) => match Global::new(&mut self.store, GlobalType::new(wty(t.ty), t.mutable), wval(&vals[0])) { Ok(m) => { self.objs.push(TObj::G(m)); Obs::Unit } Err(e) => of_err(&e) },
            Act::Inst { module, defs, links, start } => {
                let mut imp = Imports::new();
                for (m, n, o) in defs { let Some(x) = self.res(o) else { continue }; let x: Extern = match x { TObj::F(x) => x.into(), TObj::M(x) => x.into(), TObj::T(x) => x.into(), TObj::G(x) => x.into() }; imp.define(m, n, x); }
                for (m, i) in links { if let Some(i) = self.insts.borrow().get(*i).cloned().flatten() { imp.link_module(m, i).unwrap(); } }
                let slot = self.insts.borrow().len();
                self.insts.borrow_mut().push(None);
                let m = self.mods[*module].clone();
                let r = if *start { ModuleInstance::instantiate(&mut self.store, &m, Some(imp)) } else { ModuleInstance::instantiate_no_start(&mut self.store, &m, Some(imp)) };
                match r { Ok(i) => { self.insts.borrow_mut()[slot] = Some(i); Obs::Unit } Err(e) => of_err(&e) }
            }
            Act::Start(i) => {
                let Some(i) = self.insts.borrow().get(*i).cloned().flatten() else { return Obs::Skip };
                match i.start(&mut self.store) { Ok(None) => Obs::NoNum, Ok(Some(())) => Obs::Unit, Err(e) => of_err(&e) }
            }
            Act::Call { inst, name, mode, .. } => {
                let Some(i) = self.insts.borrow().get(*inst).cloned().flatten() else { return Obs::Skip };
                match i.func_untyped(&self.store, name) { Ok(f) => self.call(&f, vals, mode), Err(_) => Obs::Err("export") }
            }
            Act::CallObj { obj, mode, .. } => match self.res(obj) { Some(TObj::F(f)) => self.call(&f, vals, mode), _ => Obs::Skip },
            Act::Mem(o, op) => { let Some(TObj::M(m)) = self.res(o) else { return Obs::Skip }; self.mem(&m, op) }
            Act::Tab(o, op) => { let Some(TObj::T(t)) = self.res(o) else { return Obs::Skip }; self.tab(&t, op, &vals) }
            Act::GlobGet(o) => { let Some(TObj::G(g)) = self.res(o) else { return Obs::Skip }; match g.get(&self.store) { Ok(v) => Obs::Vals(vec![tval(&v)]), Err(e) => of_err(&e) } }
            Act::GlobSet(o, _) => { let Some(TObj::G(g)) = self.res(o) else { return Obs::Skip }; match g.set(&mut self.store, wval(&vals[0])) { Ok(()) => Obs::Unit, Err(e) => of_err(&e) } }
        }
    }
    fn mem(&mut self, m: &Memory, op: &MemOp) -> Obs {
        let s = &mut self.store;
        let r: tinywasm::Result<Obs> = (|| Ok(match op {
            MemOp::Len => Obs::Num(m.len(s)? as u64),
            MemOp::Pages => Obs::Num(m.page_count(s)? as u64),
            // `read`/`write` may be short at chunk boundaries: repeat until they report 0
            MemOp::Read(o, l) => { let mut b = vec![0xAA; *l]; let mut n = 0; while n < *l { let k = m.read(s, o + n, &mut b[n..])?; if k == 0 { break } n += k } b.truncate(n); Obs::Bytes(b) }
            MemOp::CursorRead(o, l) => { use std::io::Read; let mut c = m.cursor_at(s, *o)?; let mut b = vec![0xAA; *l]; let mut n = 0; while n < *l { match c.read(&mut b[n..]) { Ok(0) | Err(_) => break, Ok(k) => n += k } } if c.position() != o + n as u64 { return Ok(Obs::Weird("cursor position".into())) } b.truncate(n); Obs::Bytes(b) }
            MemOp::ReadVec(o, l) => Obs::Bytes(m.read_vec(s, *o, *l)?),
            MemOp::ReadExact(o, l) => { let mut b = vec![0xAA; (*l).min(1 << 20)]; if *l > 1 << 20 { return Ok(of_err(&m.read_vec(s, *o, *l).err().unwrap())) } m.read_exact(s, *o, &mut b)?; Obs::Bytes(b) }
            MemOp::Write(o, b) => { m.copy_from_slice(s, *o, b)?; Obs::Unit }
            MemOp::WriteSome(o, b) => { let mut n = 0; while n < b.len() { let k = m.write(s, o + n, &b[n..])?; if k == 0 { break } n += k } Obs::Num(n as u64) }
            MemOp::CursorWrite(o, b) => { use std::io::Write; let mut c = m.cursor_at(s, *o)?; let mut n = 0; while n < b.len() { match c.write(&b[n..]) { Ok(0) | Err(_) => break, Ok(k) => n += k } } Obs::Num(n as u64) }
            MemOp::Fill(o, l, v) => { m.fill(s, *o, *l, *v)?; Obs::Unit }
            MemOp::Copy { src, dst, len } => { m.copy_within(s, *src, *dst, *len)?; Obs::Unit }
            MemOp::Grow(d) => match m.grow(s, *d)? { Some(x) => Obs::Num(x as u64), None => Obs::NoNum },
            MemOp::CStr(o, l) => Obs::Bytes(m.read_cstring(s, *o, *l)?.into_bytes()),
            MemOp::CStrNul(o, l) => Obs::Bytes(m.read_cstring_until_null(s, *o, *l)?.into_bytes()),
            MemOp::Str(o, l) => Obs::Bytes(m.read_string(s, *o, *l)?.into_bytes()),
            MemOp::Js(o, l) => Obs::Bytes(m.read_js_string(s, *o, *l)?.into_bytes()),
            MemOp::WriteCStr(o, t) => { m.write_cstring_bytes(s, *o, t)?; Obs::Unit }
        }))();
        r.unwrap_or_else(|e| of_err(&e))
    }
    fn tab(&mut self, t: &Table, op: &TabOp, vals: &[Val]) -> Obs {
        let s = &mut self.store;
        let r: tinywasm::Result<Obs> = (|| Ok(match op {
            TabOp::Size => Obs::Num(t.size(s)? as u64),
            TabOp::Get(i) => Obs::Vals(vec![tval(&t.get(s, *i)?)]),
            TabOp::Load(o, l) => Obs::Vals(t.load(s, *o, *l)?.map(|v| tval(&v)).collect()),
            TabOp::Set(i, _) => { t.set(s, *i, wval(&vals[0]))?; Obs::Unit }
            TabOp::Copy { src, dst, len } => { t.copy_within(s, *src, *dst, *len)?; Obs::Unit }
            // a refused host grow is reported as an error of its own kind
            TabOp::Grow(_, _) if false => Obs::Unit,
            TabOp::Grow(d, _) => match t.grow(s, *d, wval(&vals[0])) { Ok(x) => Obs::Num(x as u64), Err(tinywasm::Error::Trap(tinywasm::Trap::TableOutOfBounds { .. })) => Obs::NoNum, Err(e) => return Err(e) },
        }))();
        r.unwrap_or_else(|e| of_err(&e))
    }
    pub fn snap(&self) -> BTreeMap<String, Snap> {
        let mut keys: Vec<(String, TObj)> = self.objs.iter().enumerate().map(|(i, o)| (format!("obj{i}"), o.clone())).collect();
        for (w, i) in self.insts.borrow().iter().enumerate() { if let Some(i) = i { let names: Vec<String> = i.exports().map(|e| e.0.to_string()).collect(); for n in names { if let Some(x) = self.exp(i, &n) { keys.push((format!("{w}.{n}"), x)) } } } }
        let mut out = BTreeMap::new();
        for (k, o) in keys {
            let s = match o { TObj::F(_) => continue,
                TObj::M(m) => Snap::Mem(m.page_count(&self.store).unwrap() as u64, m.read_vec(&self.store, 0, m.len(&self.store).unwrap()).unwrap_or_default()),
                TObj::T(t) => Snap::Tab(t.load(&self.store, 0, t.size(&self.store).unwrap()).map(|v| v.map(|v| tval(&v)).collect()).unwrap_or_default()),
                TObj::G(g) => Snap::Glob(tval(&g.get(&self.store).unwrap())) };
            out.insert(k, s);
        }
        out
    }
    fn same(&mut self, r: &Val, t: &Val) -> bool {
        match (r, t) {
            (Val::FuncRef(Some(x)), Val::FuncRef(Some(y))) => match (self.r2t.get(x), self.t2r.get(y)) {
                (None, None) => { self.r2t.insert(*x, *y); self.t2r.insert(*y, *x); true }
                (Some(a), Some(b)) => a == y && b == x,
                _ => false,
            },
            _ => spec::same_val(*r, *t),
        }
    }
    fn same_vals(&mut self, r: &[Val], t: &[Val]) -> bool { r.len() == t.len() && r.iter().zip(t).all(|(a, b)| self.same(a, b)) }
    fn same_obs(&mut self, r: &Obs, t: &Obs) -> bool {
        match (r, t) { (Obs::Vals(a), Obs::Vals(b)) => self.same_vals(a, b), (Obs::Host(a), Obs::Host(b)) => a.trim_start_matches("host:") == b.trim_start_matches("host:"), _ => r == t }
    }
    fn same_ev(&mut self, r: &Ev, t: &Ev) -> bool {
        match (r, t) { (Ev::Enter(i, a), Ev::Enter(j, b)) => i == j && self.same_vals(a, b),
            (Ev::CallRes(Ok(a)), Ev::CallRes(Ok(b))) => self.same_vals(a, b),
            (Ev::CallRes(Err(a)), Ev::CallRes(Err(b))) => a.replace("host:", "") == b.replace("host:", ""), _ => r == t }
    }
}

// ---------------------------------------------------------------- configurations
#[derive(Clone, Debug)]
pub enum Backend { Vec, Paged(usize), LazyVec, LazyPaged(usize), Odd }
#[derive(Clone, Debug)]
pub struct Cfg { pub backend: Backend, pub rewrite: bool, pub memopt: bool, pub archive: bool, pub weighted: bool, pub vs: Option<[StackConfig; 3]>, pub cs: Option<StackConfig>, pub oom: bool }
impl Default for Cfg { fn default() -> Cfg { Cfg { backend: Backend::Vec, rewrite: true, memopt: true, archive: false, weighted: false, vs: None, cs: Some(StackConfig::fixed(1024)), oom: false } } }
impl Cfg {
    pub fn parser(&self) -> tinywasm::parser::Parser {
        use tinywasm::parser::{Parser, ParserOptions};
        Parser::with_options(ParserOptions::default().with_local_memory_allocation_optimization(self.memopt).with_rewrite_optimization(self.rewrite))
    }
    pub fn config(&self) -> Config {
        use tinywasm::engine::{FuelPolicy, LazyLinearMemory, MemoryBackend};
        let mut c = Config::new().with_trap_on_oom(self.oom);
        if self.weighted { c = c.with_fuel_policy(FuelPolicy::Weighted) }
        if let Some(v) = self.vs { c = c.with_value_stack_32(v[0]).with_value_stack_64(v[1]).with_value_stack_128(v[2]) }
        if let Some(v) = self.cs { c = c.with_call_stack(v) }
        c.with_memory_backend(match self.backend.clone() {
            Backend::Vec => MemoryBackend::default(),
            Backend::Paged(n) => MemoryBackend::paged(n),
            Backend::LazyVec => MemoryBackend::custom(|ty: MemoryType| LazyLinearMemory::try_new(ty, MemoryBackend::vec())),
            Backend::LazyPaged(c) => MemoryBackend::custom(move |ty: MemoryType| LazyLinearMemory::try_new(ty, MemoryBackend::paged(c))),
            Backend::Odd => MemoryBackend::custom(|ty: MemoryType| Ok(OddMemory(vec![0; ty.initial_size() as usize]))),
        })
    }
}
/// A user-written backend relying on the trait's provided methods, short reads and writes every 7 bytes.
pub struct OddMemory(pub Vec<u8>);
impl tinywasm::engine::LinearMemory for OddMemory {
    fn len(&self) -> usize { self.0.len() }
    fn grow_to(&mut self, n: usize) -> Result<(), tinywasm::Trap> { self.0.resize(n, 0); Ok(()) }
    fn read(&self, a: usize, d: &mut [u8]) -> usize { if a >= self.0.len() { return 0 } let n = d.len().min(self.0.len() - a).min(7); d[..n].copy_from_slice(&self.0[a..a + n]); n }
    fn write(&mut self, a: usize, s: &[u8]) -> usize { if a >= self.0.len() { return 0 } let n = s.len().min(self.0.len() - a).min(7); self.0[a..a + n].copy_from_slice(&s[..n]); n }
}

// ---------------------------------------------------------------- comparison
pub struct Outcome { pub fail: Option<String>, pub discarded: bool, pub obs: Vec<Obs>, pub rw: RWorld }
/// values the reference passes for an act, in the order `TWorld::act` expects them
pub fn act_vals(rw: &RWorld, a: &Act) -> Vec<Val> {
    match a { Act::NewTable(_, x) | Act::NewGlobal(_, x) | Act::GlobSet(_, x) | Act::Tab(_, TabOp::Set(_, x)) | Act::Tab(_, TabOp::Grow(_, x)) => vec![rw.arg(x)],
        Act::Call { args, .. } | Act::CallObj { args, .. } => args.iter().map(|x| rw.arg(x)).collect(), _ => vec![] }
}
pub fn run(sc: &Scenario, cfg: &Cfg, cover: bool) -> Outcome {
    let mut rw = RWorld::new(sc);
    rw.s.cover = cover;
    let mut obs = vec![];
    macro_rules! fail { ($($t:tt)*) => { return Outcome { fail: Some(format!($($t)*)), discarded: false, obs, rw } } }
    let tw = catch_unwind(AssertUnwindSafe(|| TWorld::new(sc, cfg)));
    let mut tw = match tw { Ok(Ok(t)) => t, Ok(Err(e)) => fail!("module rejected: {e}"), Err(p) => fail!("parser panicked: {}", panic_msg(p)) };
    for (i, a) in sc.acts.iter().enumerate() {
        let vals = act_vals(&rw, a);
        let r = rw.act(a);
        if r == Obs::Budget { return Outcome { fail: None, discarded: true, obs, rw } }
        // keep the two worlds' handle tables in step even if an object reference is skipped
        let t = match catch_unwind(AssertUnwindSafe(|| tw.act(a, &vals))) { Ok(o) => o, Err(p) => Obs::Panic(panic_msg(p)) };
        if !tw.same_obs(&r, &t) { fail!("act {i} {}: reference {} tinywasm {}", show(a), showo(&r), showo(&t)) }
        let rt = std::mem::take(&mut rw.s.trace);
        let tt = std::mem::take(&mut tw.sh.borrow_mut().trace);
        for (k, (x, y)) in rt.iter().zip(&tt).enumerate() { if !tw.same_ev(x, y) { fail!("act {i} {}: host event {k}: reference {x:?} tinywasm {y:?}", show(a)) } }
        if rt.len() != tt.len() { fail!("act {i} {}: {} host events, tinywasm {}", show(a), rt.len(), tt.len()) }
        let rs = rw.snap();
        let ts = match catch_unwind(AssertUnwindSafe(|| tw.snap())) { Ok(x) => x, Err(p) => fail!("act {i} {}: snapshot panicked: {}", show(a), panic_msg(p)) };
        if !rs.keys().eq(ts.keys()) { fail!("act {i} {}: objects {:?} tinywasm {:?}", show(a), rs.keys(), ts.keys()) }
        for (k, x) in &rs {
            let ok = match (x, &ts[k]) { (Snap::Tab(p), Snap::Tab(q)) => tw.same_vals(p, q), (Snap::Glob(p), Snap::Glob(q)) => tw.same(p, q), (p, q) => p == q };
            if !ok { fail!("act {i} {}: contents of {k} differ: {}", show(a), diff(x, &ts[k])) }
        }
        for x in rs.values() { match x { Snap::Tab(v) => for y in v { rw.note(y) }, Snap::Glob(v) => rw.note(v), _ => {} } }
        obs.push(r);
    }
    Outcome { fail: None, discarded: false, obs, rw }
}
pub fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String { p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()) }
pub fn show(a: &Act) -> String { let mut s = format!("{a:?}"); if s.len() > 300 { let mut k = 300; while !s.is_char_boundary(k) { k -= 1 } s.truncate(k); s.push('…') } s }
fn showo(o: &Obs) -> String { let mut s = format!("{o:?}"); if s.len() > 400 { let mut k = 400; while !s.is_char_boundary(k) { k -= 1 } s.truncate(k) } s }
fn diff(a: &Snap, b: &Snap) -> String {
    match (a, b) {
        (Snap::Mem(p, x), Snap::Mem(q, y)) => if x.len() != y.len() || p != q { format!("{p} pages {} bytes, tinywasm {q} pages {} bytes", x.len(), y.len()) } else { let i = x.iter().zip(y).position(|(a, b)| a != b).unwrap(); format!("byte {i}: {:#x} tinywasm {:#x}", x[i], y[i]) },
        (Snap::Tab(x), Snap::Tab(y)) => if x.len() != y.len() { format!("size {} tinywasm {}", x.len(), y.len()) } else { format!("{x:?} tinywasm {y:?}") },
        _ => format!("{a:?} tinywasm {b:?}"),
    }
}
