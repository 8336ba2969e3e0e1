//! Reference semantics: a direct transcription of the WebAssembly core specification's structured
//! operational semantics (labels, frames, store) over the binary module, sharing nothing with the
//! code under verification.  Numeric instructions are `spec`'s specification functions.
#![allow(unused_parens)]
use crate::world::{Beh, Ctx, Ev, HErr};
use spec::{F32, F64, Lane, R, Tr, Ty, V128, Val, simd};
use std::collections::HashMap;
use std::rc::Rc;
use wasmparser::{Operator, Payload};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Trap {
    Unreachable, MemOob, TableOob, DivZero, BadConv, Overflow, Stack, UndefElem, UninitElem, SigMismatch, Oom,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Stop {
    Trap(Trap),
    Host(String),
    /// the reference gives up (step or depth budget): the scenario is discarded
    Budget,
}
impl From<Tr> for Stop {
    fn from(t: Tr) -> Stop { Stop::Trap(match t { Tr::DivZero => Trap::DivZero, Tr::Overflow => Trap::Overflow, Tr::BadConv => Trap::BadConv }) }
}
pub type X<T> = Result<T, Stop>;
fn trap<T>(t: Trap) -> X<T> { Err(Stop::Trap(t)) }

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Sig { pub p: Vec<Ty>, pub r: Vec<Ty> }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct MemTy { pub m64: bool, pub min: u64, pub max: Option<u64>, pub page: u64 }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct TabTy { pub t64: bool, pub min: u64, pub max: Option<u64>, pub el: Ty }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct GlobTy { pub ty: Ty, pub mutable: bool }
#[derive(Clone, PartialEq, Debug)]
pub enum ImpTy { F(u32), T(TabTy), M(MemTy), G(GlobTy) }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind { F, T, M, G }

type Op = Operator<'static>;
pub struct Code { ops: Vec<Op>, end: Vec<u32>, els: Vec<u32>, locals: Vec<Ty>, brt: HashMap<u32, (Vec<u32>, u32)> }
pub enum SegKind { Passive, Active(u32, Vec<Op>), Declared }
pub struct RModule {
    pub types: Vec<Sig>,
    pub imports: Vec<(String, String, ImpTy)>,
    pub funcs: Vec<u32>,
    pub tables: Vec<TabTy>,
    pub mems: Vec<MemTy>,
    pub globals: Vec<(GlobTy, Vec<Op>)>,
    pub exports: Vec<(String, Kind, u32)>,
    pub start: Option<u32>,
    elems: Vec<(SegKind, Vec<Vec<Op>>)>,
    datas: Vec<(SegKind, Vec<u8>)>,
    codes: Vec<Rc<Code>>,
}

fn vt(t: wasmparser::ValType) -> Ty {
    use wasmparser::ValType as V;
    match t {
        V::I32 => Ty::I32, V::I64 => Ty::I64, V::F32 => Ty::F32, V::F64 => Ty::F64, V::V128 => Ty::V128,
        V::Ref(r) if r.is_func_ref() => Ty::FuncRef,
        V::Ref(r) if r.is_extern_ref() => Ty::ExternRef,
        V::Ref(r) => panic!("reference type {r:?}"),
    }
}
fn cmem(m: wasmparser::MemoryType) -> MemTy { MemTy { m64: m.memory64, min: m.initial, max: m.maximum, page: 1 << m.page_size_log2.unwrap_or(16) } }
fn ctab(t: wasmparser::TableType) -> TabTy { TabTy { t64: t.table64, min: t.initial, max: t.maximum, el: vt(wasmparser::ValType::Ref(t.element_type)) } }
fn cglob(g: wasmparser::GlobalType) -> GlobTy { GlobTy { ty: vt(g.content_type), mutable: g.mutable } }
fn cexpr(e: wasmparser::ConstExpr<'static>) -> Vec<Op> { e.get_operators_reader().into_iter().map(|o| o.unwrap()).collect() }

impl RModule {
    pub fn decode(bytes: &[u8]) -> RModule {
        let bytes: &'static [u8] = Box::leak(bytes.to_vec().into_boxed_slice());
        let mut m = RModule { types: vec![], imports: vec![], funcs: vec![], tables: vec![], mems: vec![], globals: vec![], exports: vec![],
            start: None, elems: vec![], datas: vec![], codes: vec![] };
        for p in wasmparser::Parser::new(0).parse_all(bytes) {
            match p.unwrap() {
                Payload::TypeSection(s) => for t in s.into_iter_err_on_gc_types() { let t = t.unwrap();
                    m.types.push(Sig { p: t.params().iter().map(|x| vt(*x)).collect(), r: t.results().iter().map(|x| vt(*x)).collect() }) },
                Payload::ImportSection(s) => for i in s.into_imports() { let i = i.unwrap();
                    use wasmparser::TypeRef as T;
                    let t = match i.ty { T::Func(f) => ImpTy::F(f), T::Table(t) => ImpTy::T(ctab(t)), T::Memory(t) => ImpTy::M(cmem(t)), T::Global(g) => ImpTy::G(cglob(g)), _ => panic!() };
                    m.imports.push((i.module.into(), i.name.into(), t)) },
                Payload::FunctionSection(s) => for f in s { m.funcs.push(f.unwrap()) },
                Payload::TableSection(s) => for t in s { m.tables.push(ctab(t.unwrap().ty)) },
                Payload::MemorySection(s) => for t in s { m.mems.push(cmem(t.unwrap())) },
                Payload::GlobalSection(s) => for g in s { let g = g.unwrap(); m.globals.push((cglob(g.ty), cexpr(g.init_expr))) },
                Payload::ExportSection(s) => for e in s { let e = e.unwrap();
                    use wasmparser::ExternalKind as K;
                    let k = match e.kind { K::Func => Kind::F, K::Table => Kind::T, K::Memory => Kind::M, K::Global => Kind::G, _ => panic!() };
                    m.exports.push((e.name.into(), k, e.index)) },
                Payload::StartSection { func, .. } => m.start = Some(func),
                Payload::ElementSection(s) => for e in s { let e = e.unwrap();
                    let k = match e.kind { wasmparser::ElementKind::Passive => SegKind::Passive, wasmparser::ElementKind::Declared => SegKind::Declared,
                        wasmparser::ElementKind::Active { table_index, offset_expr } => SegKind::Active(table_index.unwrap_or(0), cexpr(offset_expr)) };
                    let items = match e.items {
                        wasmparser::ElementItems::Functions(f) => f.into_iter().map(|f| vec![Operator::RefFunc { function_index: f.unwrap() }, Operator::End]).collect(),
                        wasmparser::ElementItems::Expressions(_, x) => x.into_iter().map(|x| cexpr(x.unwrap())).collect() };
                    m.elems.push((k, items)) },
                Payload::DataSection(s) => for d in s { let d = d.unwrap();
                    let k = match d.kind { wasmparser::DataKind::Passive => SegKind::Passive,
                        wasmparser::DataKind::Active { memory_index, offset_expr } => SegKind::Active(memory_index, cexpr(offset_expr)) };
                    m.datas.push((k, d.data.to_vec())) },
                Payload::CodeSectionEntry(b) => {
                    let mut locals = vec![];
                    for l in b.get_locals_reader().unwrap() { let (n, t) = l.unwrap(); for _ in 0..n { locals.push(vt(t)) } }
                    let ops: Vec<Op> = b.get_operators_reader().unwrap().into_iter().map(|o| o.unwrap()).collect();
                    let (mut end, mut els, mut brt, mut st) = (vec![0; ops.len()], vec![0; ops.len()], HashMap::new(), vec![]);
                    for (i, o) in ops.iter().enumerate() {
                        match o {
                            Operator::Block { .. } | Operator::Loop { .. } | Operator::If { .. } => st.push(i),
                            Operator::Else => els[*st.last().unwrap()] = i as u32,
                            Operator::End => if let Some(s) = st.pop() { end[s] = i as u32; if els[s] != 0 { end[els[s] as usize] = i as u32 } },
                            Operator::BrTable { targets } => { brt.insert(i as u32, (targets.targets().map(|t| t.unwrap()).collect(), targets.default())); }
                            _ => {}
                        }
                    }
                    m.codes.push(Rc::new(Code { ops, end, els, locals, brt })) }
                _ => {}
            }
        }
        m
    }
}

pub enum RFunc { Wasm { inst: usize, sig: Sig, code: Rc<Code> }, Host { sig: Sig, beh: Rc<Beh> } }
impl RFunc { pub fn sig(&self) -> &Sig { match self { RFunc::Wasm { sig, .. } | RFunc::Host { sig, .. } => sig } } }
pub struct RMem { pub ty: MemTy, pub bytes: Vec<u8> }
pub struct RTab { pub ty: TabTy, pub el: Vec<Option<u32>> }
pub struct RGlob { pub ty: GlobTy, pub val: Val }
pub struct RInst { pub m: Rc<RModule>, pub f: Vec<usize>, pub t: Vec<usize>, pub mem: Vec<usize>, pub g: Vec<usize>, pub elem: Vec<usize>, pub data: Vec<usize> }
impl RInst {
    pub fn export(&self, name: &str) -> Option<(Kind, usize)> {
        let (_, k, i) = self.m.exports.iter().find(|e| e.0 == name)?; let i = *i as usize;
        Some((*k, match k { Kind::F => self.f[i], Kind::T => self.t[i], Kind::M => self.mem[i], Kind::G => self.g[i] }))
    }
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Peak { pub frames: usize, pub w32: usize, pub w64: usize, pub w128: usize }
/// thrown when a case asks for more resources than a check may use
pub struct Discard;
#[derive(Default)]
pub struct RStore {
    pub funcs: Vec<RFunc>, pub tabs: Vec<RTab>, pub mems: Vec<RMem>, pub globs: Vec<RGlob>,
    pub elems: Vec<Vec<Option<u32>>>, pub datas: Vec<Vec<u8>>,
    pub insts: Vec<RInst>,
    /// host-visible instance number -> instance (None: failed or not yet finished)
    pub alias: Vec<Option<usize>>,
    pub trace: Vec<Ev>,
    pub steps: u64, pub max_steps: u64, pub max_depth: usize, pub depth: usize, pub hosts: usize,
    pub st: Vec<Val>, pub cur: [usize; 3],
    pub peak: Peak,
    /// operator coverage
    pub seen: HashMap<String, u64>, pub cover: bool,
    /// give up (discard) when arithmetic yields a NaN, whose bits the specification leaves open
    pub nan_stop: bool,
}

fn lane(t: Ty) -> usize { match t { Ty::I64 | Ty::F64 => 1, Ty::V128 => 2, _ => 0 } }
pub const MAX_TABLE: u64 = 10_000_000;

struct Label { cont: usize, height: usize, arity: usize }
enum Exit { Return, Tail(usize, Vec<Val>) }

impl RStore {
    fn push(&mut self, v: Val) {
        let l = lane(v.ty());
        self.cur[l] += 1;
        let c = self.cur[l];
        let p = match l { 0 => &mut self.peak.w32, 1 => &mut self.peak.w64, _ => &mut self.peak.w128 };
        if c > *p { *p = c }
        self.st.push(v);
    }
    fn pop(&mut self) -> Val { let v = self.st.pop().unwrap(); self.cur[lane(v.ty())] -= 1; v }
    fn popt<L: Lane>(&mut self) -> L { L::of_val(self.pop()) }
    fn popn(&mut self, n: usize) -> Vec<Val> { let mut r: Vec<Val> = (0..n).map(|_| self.pop()).collect(); r.reverse(); r }
    fn cut(&mut self, height: usize, keep: usize) { let k = self.popn(keep); while self.st.len() > height { self.pop(); } for v in k { self.push(v) } }
    fn addr(&mut self) -> u64 { match self.pop() { Val::I32(x) => x as u64, Val::I64(x) => x, _ => panic!() } }

    pub fn invoke(&mut self, f: usize, args: Vec<Val>) -> X<Vec<Val>> {
        let base = self.st.len();
        let r = self.invoke_(f, args);
        if r.is_err() { self.cut(base, 0) }
        r
    }
    fn invoke_(&mut self, mut f: usize, mut args: Vec<Val>) -> X<Vec<Val>> {
        if self.depth >= self.max_depth { return Err(Stop::Budget); }
        self.depth += 1;
        if self.depth > self.peak.frames { self.peak.frames = self.depth }
        let r = loop {
            match &self.funcs[f] {
                RFunc::Host { beh, sig } => {
                    let (beh, sig) = (beh.clone(), sig.clone());
                    if self.hosts >= 60 { self.depth -= 1; return Err(Stop::Budget) }
                    self.depth -= 1; // host frames are not wasm frames
                    self.hosts += 1;
                    let r = beh.run(self, &sig, &args);
                    self.hosts -= 1;
                    self.depth += 1;
                    break match r { Ok(v) => if v.len() == sig.r.len() && v.iter().zip(&sig.r).all(|(v, t)| v.ty() == *t) { Ok(v) } else { Err(Stop::Host("bad-return".into())) }, Err(HErr::Stop(s)) => Err(s), Err(HErr::Msg(m)) => Err(Stop::Host(m)) };
                }
                RFunc::Wasm { inst, sig, code } => {
                    let (inst, sig, code) = (*inst, sig.clone(), code.clone());
                    let base = self.st.len();
                    for a in &args { self.push(*a) }
                    for t in &code.locals { self.push(Val::default(*t)) }
                    match self.body(inst, &code, base, &sig) {
                        Ok(Exit::Return) => { let r = self.popn(sig.r.len()); self.cut(base, 0); break Ok(r) }
                        Ok(Exit::Tail(g, a)) => { self.cut(base, 0); f = g; args = a; }
                        Err(e) => { self.cut(base, 0); break Err(e) }
                    }
                }
            }
        };
        self.depth -= 1;
        r
    }

    fn mem_ea(&self, inst: usize, memarg: &wasmparser::MemArg, base: u64, w: usize) -> X<(usize, usize)> {
        let a = self.insts[inst].mem[memarg.memory as usize];
        let ea = base as u128 + memarg.offset as u128;
        if ea + w as u128 > self.mems[a].bytes.len() as u128 { return trap(Trap::MemOob); }
        Ok((a, ea as usize))
    }
    fn ld<const N: usize>(&mut self, inst: usize, m: &wasmparser::MemArg) -> X<[u8; N]> {
        let b = self.addr();
        let (a, ea) = self.mem_ea(inst, m, b, N)?;
        Ok(self.mems[a].bytes[ea..ea + N].try_into().unwrap())
    }
    fn sto(&mut self, inst: usize, m: &wasmparser::MemArg, bytes: &[u8]) -> X<()> {
        let b = self.addr();
        let (a, ea) = self.mem_ea(inst, m, b, bytes.len())?;
        self.mems[a].bytes[ea..ea + bytes.len()].copy_from_slice(bytes);
        Ok(())
    }
    pub fn mem_grow(&mut self, a: usize, delta: u64) -> Option<u64> {
        let m = &mut self.mems[a];
        let old = m.bytes.len() as u64 / m.ty.page;
        let lim = if m.ty.m64 { (u64::MAX / m.ty.page).min(1 << 48) } else { ((1u64 << 32) / m.ty.page).min(if m.ty.page == 1 { u32::MAX as u64 } else { 65536 }) };
        let new = old.checked_add(delta)?;
        if new > m.ty.max.unwrap_or(lim).min(lim) { return None; }
        if (new as u128) * (m.ty.page as u128) > 1 << 26 { std::panic::panic_any(Discard) }
        m.bytes.resize((new * m.ty.page) as usize, 0);
        Some(old)
    }
    pub fn tab_grow(&mut self, a: usize, delta: u64, init: Option<u32>) -> Option<u64> {
        let t = &mut self.tabs[a];
        let old = t.el.len() as u64;
        let new = old.checked_add(delta)?;
        if new > t.ty.max.unwrap_or(u64::MAX).min(MAX_TABLE) { return None; }
        t.el.resize(new as usize, init);
        Some(old)
    }
    fn refv(el: Ty, r: Option<u32>) -> Val { if el == Ty::FuncRef { Val::FuncRef(r) } else { Val::ExternRef(r) } }
    fn popref(&mut self) -> Option<u32> { match self.pop() { Val::FuncRef(r) | Val::ExternRef(r) => r, _ => panic!() } }
    fn arity(&self, inst: usize, bt: &wasmparser::BlockType) -> (usize, usize) {
        match bt { wasmparser::BlockType::Empty => (0, 0), wasmparser::BlockType::Type(_) => (0, 1),
            wasmparser::BlockType::FuncType(t) => { let s = &self.insts[inst].m.types[*t as usize]; (s.p.len(), s.r.len()) } }
    }
    fn indirect(&mut self, inst: usize, table: u32, ty: u32) -> X<usize> {
        let i = self.addr();
        let t = &self.tabs[self.insts[inst].t[table as usize]];
        if i >= t.el.len() as u64 { return trap(Trap::UndefElem); }
        let Some(f) = t.el[i as usize] else { return trap(Trap::UninitElem) };
        if *self.funcs[f as usize].sig() != self.insts[inst].m.types[ty as usize] { return trap(Trap::SigMismatch); }
        Ok(f as usize)
    }

    fn body(&mut self, inst: usize, code: &Code, base: usize, sig: &Sig) -> X<Exit> {
        let nlocals = sig.p.len() + code.locals.len();
        let mut labels = vec![Label { cont: code.ops.len(), height: base + nlocals, arity: sig.r.len() }];
        let mut pc = 0usize;
        macro_rules! br { ($d:expr) => {{
            let i = labels.len() - 1 - $d as usize;
            let l = &labels[i];
            let (h, a, c) = (l.height, l.arity, l.cont);
            self.cut(h, a);
            labels.truncate(i);
            pc = c;
            continue;
        }} }
        while pc < code.ops.len() {
            self.steps += 1;
            if self.steps > self.max_steps || self.cur[0] > 30_000 || self.cur[1] > 30_000 || self.cur[2] > 3_500 { return Err(Stop::Budget); }
            let op = &code.ops[pc];
            if self.cover { let s = format!("{op:?}"); let n: String = s.chars().take_while(|c| c.is_alphanumeric()).collect(); *self.seen.entry(n).or_default() += 1; }
            use Operator as O;
            match op {
                O::Unreachable => return trap(Trap::Unreachable),
                O::Nop => {}
                O::Block { blockty } => { let (p, r) = self.arity(inst, blockty); labels.push(Label { cont: code.end[pc] as usize + 1, height: self.st.len() - p, arity: r }) }
                O::Loop { blockty } => { let (p, _) = self.arity(inst, blockty); labels.push(Label { cont: pc, height: self.st.len() - p, arity: p }) }
                O::If { blockty } => {
                    let c: u32 = self.popt();
                    let (p, r) = self.arity(inst, blockty);
                    let l = Label { cont: code.end[pc] as usize + 1, height: self.st.len() - p, arity: r };
                    if c != 0 { labels.push(l) } else if code.els[pc] != 0 { labels.push(l); pc = code.els[pc] as usize } else { pc = code.end[pc] as usize }
                }
                O::Else => { pc = code.end[pc] as usize; labels.pop(); }
                O::End => { labels.pop(); }
                O::Br { relative_depth } => br!(*relative_depth),
                O::BrIf { relative_depth } => { let c: u32 = self.popt(); if c != 0 { br!(*relative_depth) } }
                O::BrTable { .. } => { let i: u32 = self.popt(); let (t, d) = &code.brt[&(pc as u32)]; let d = *t.get(i as usize).unwrap_or(d); br!(d) }
                O::Return => { return Ok(Exit::Return) }
                O::Call { function_index } => {
                    let f = self.insts[inst].f[*function_index as usize];
                    let n = self.funcs[f].sig().p.len();
                    let a = self.popn(n);
                    for v in self.invoke_(f, a)? { self.push(v) }
                }
                O::CallIndirect { type_index, table_index } => {
                    let f = self.indirect(inst, *table_index, *type_index)?;
                    let n = self.funcs[f].sig().p.len();
                    let a = self.popn(n);
                    for v in self.invoke_(f, a)? { self.push(v) }
                }
                O::ReturnCall { function_index } => {
                    let f = self.insts[inst].f[*function_index as usize];
                    let n = self.funcs[f].sig().p.len();
                    return Ok(Exit::Tail(f, self.popn(n)));
                }
                O::ReturnCallIndirect { type_index, table_index } => {
                    let f = self.indirect(inst, *table_index, *type_index)?;
                    let n = self.funcs[f].sig().p.len();
                    return Ok(Exit::Tail(f, self.popn(n)));
                }
                O::Drop => { self.pop(); }
                O::Select | O::TypedSelect { .. } => { let c: u32 = self.popt(); let b = self.pop(); let a = self.pop(); self.push(if c != 0 { a } else { b }) }
                O::LocalGet { local_index } => { let v = self.st[base + *local_index as usize]; self.push(v) }
                O::LocalSet { local_index } => { let v = self.pop(); self.st[base + *local_index as usize] = v }
                O::LocalTee { local_index } => { let v = *self.st.last().unwrap(); self.st[base + *local_index as usize] = v }
                O::GlobalGet { global_index } => { let v = self.globs[self.insts[inst].g[*global_index as usize]].val; self.push(v) }
                O::GlobalSet { global_index } => { let v = self.pop(); let g = self.insts[inst].g[*global_index as usize]; self.globs[g].val = v }
                O::RefNull { hty } => { let v = if *hty == wasmparser::HeapType::FUNC { Val::FuncRef(None) } else { Val::ExternRef(None) }; self.push(v) }
                O::RefIsNull => { let r = self.popref(); self.push(Val::I32(r.is_none() as u32)) }
                O::RefFunc { function_index } => { let f = self.insts[inst].f[*function_index as usize]; self.push(Val::FuncRef(Some(f as u32))) }
                O::MemorySize { mem } => { let m = &self.mems[self.insts[inst].mem[*mem as usize]]; let n = m.bytes.len() as u64 / m.ty.page; let v = if m.ty.m64 { Val::I64(n) } else { Val::I32(n as u32) }; self.push(v) }
                O::MemoryGrow { mem } => {
                    let d = self.addr();
                    let a = self.insts[inst].mem[*mem as usize];
                    let m64 = self.mems[a].ty.m64;
                    let r = self.mem_grow(a, d);
                    self.push(if m64 { Val::I64(r.unwrap_or(u64::MAX)) } else { Val::I32(r.map(|x| x as u32).unwrap_or(u32::MAX)) })
                }
                O::MemoryFill { mem } => {
                    let n = self.addr(); let v: u32 = self.popt(); let d = self.addr();
                    let a = self.insts[inst].mem[*mem as usize];
                    if d as u128 + n as u128 > self.mems[a].bytes.len() as u128 { return trap(Trap::MemOob); }
                    self.mems[a].bytes[d as usize..(d + n) as usize].fill(v as u8);
                }
                O::MemoryCopy { dst_mem, src_mem } => {
                    let n = self.addr(); let s = self.addr(); let d = self.addr();
                    let (da, sa) = (self.insts[inst].mem[*dst_mem as usize], self.insts[inst].mem[*src_mem as usize]);
                    if s as u128 + n as u128 > self.mems[sa].bytes.len() as u128 || d as u128 + n as u128 > self.mems[da].bytes.len() as u128 { return trap(Trap::MemOob); }
                    let tmp = self.mems[sa].bytes[s as usize..(s + n) as usize].to_vec();
                    self.mems[da].bytes[d as usize..(d + n) as usize].copy_from_slice(&tmp);
                }
                O::MemoryInit { data_index, mem } => {
                    let n = self.addr(); let s = self.addr(); let d = self.addr();
                    let a = self.insts[inst].mem[*mem as usize]; let g = self.insts[inst].data[*data_index as usize];
                    self.mem_init(a, g, d, s, n)?;
                }
                O::DataDrop { data_index } => { let g = self.insts[inst].data[*data_index as usize]; self.datas[g] = vec![] }
                O::TableGet { table } => {
                    let i = self.addr(); let t = &self.tabs[self.insts[inst].t[*table as usize]];
                    if i >= t.el.len() as u64 { return trap(Trap::TableOob); }
                    let v = Self::refv(t.ty.el, t.el[i as usize]); self.push(v)
                }
                O::TableSet { table } => {
                    let r = self.popref(); let i = self.addr(); let a = self.insts[inst].t[*table as usize];
                    if i >= self.tabs[a].el.len() as u64 { return trap(Trap::TableOob); }
                    self.tabs[a].el[i as usize] = r
                }
                O::TableSize { table } => { let t = &self.tabs[self.insts[inst].t[*table as usize]]; let v = if t.ty.t64 { Val::I64(t.el.len() as u64) } else { Val::I32(t.el.len() as u32) }; self.push(v) }
                O::TableGrow { table } => {
                    let n = self.addr(); let r = self.popref(); let a = self.insts[inst].t[*table as usize];
                    let t64 = self.tabs[a].ty.t64;
                    let o = self.tab_grow(a, n, r);
                    self.push(if t64 { Val::I64(o.unwrap_or(u64::MAX)) } else { Val::I32(o.map(|x| x as u32).unwrap_or(u32::MAX)) })
                }
                O::TableFill { table } => {
                    let n = self.addr(); let r = self.popref(); let i = self.addr(); let a = self.insts[inst].t[*table as usize];
                    if i as u128 + n as u128 > self.tabs[a].el.len() as u128 { return trap(Trap::TableOob); }
                    self.tabs[a].el[i as usize..(i + n) as usize].fill(r)
                }
                O::TableCopy { dst_table, src_table } => {
                    let n = self.addr(); let s = self.addr(); let d = self.addr();
                    let (da, sa) = (self.insts[inst].t[*dst_table as usize], self.insts[inst].t[*src_table as usize]);
                    if s as u128 + n as u128 > self.tabs[sa].el.len() as u128 || d as u128 + n as u128 > self.tabs[da].el.len() as u128 { return trap(Trap::TableOob); }
                    let tmp = self.tabs[sa].el[s as usize..(s + n) as usize].to_vec();
                    self.tabs[da].el[d as usize..(d + n) as usize].copy_from_slice(&tmp);
                }
                O::TableInit { elem_index, table } => {
                    let n = self.addr(); let s = self.addr(); let d = self.addr();
                    let a = self.insts[inst].t[*table as usize]; let g = self.insts[inst].elem[*elem_index as usize];
                    self.table_init(a, g, d, s, n)?;
                }
                O::ElemDrop { elem_index } => { let g = self.insts[inst].elem[*elem_index as usize]; self.elems[g] = vec![] }
                O::I32Load { memarg } => { let b = self.ld::<4>(inst, memarg)?; self.push(Val::I32(u32::from_le_bytes(b))) }
                O::I64Load { memarg } => { let b = self.ld::<8>(inst, memarg)?; self.push(Val::I64(u64::from_le_bytes(b))) }
                O::F32Load { memarg } => { let b = self.ld::<4>(inst, memarg)?; self.push(Val::F32(u32::from_le_bytes(b))) }
                O::F64Load { memarg } => { let b = self.ld::<8>(inst, memarg)?; self.push(Val::F64(u64::from_le_bytes(b))) }
                O::I32Load8S { memarg } => { let b = self.ld::<1>(inst, memarg)?; self.push(Val::I32(b[0] as i8 as i32 as u32)) }
                O::I32Load8U { memarg } => { let b = self.ld::<1>(inst, memarg)?; self.push(Val::I32(b[0] as u32)) }
                O::I32Load16S { memarg } => { let b = self.ld::<2>(inst, memarg)?; self.push(Val::I32(i16::from_le_bytes(b) as i32 as u32)) }
                O::I32Load16U { memarg } => { let b = self.ld::<2>(inst, memarg)?; self.push(Val::I32(u16::from_le_bytes(b) as u32)) }
                O::I64Load8S { memarg } => { let b = self.ld::<1>(inst, memarg)?; self.push(Val::I64(b[0] as i8 as i64 as u64)) }
                O::I64Load8U { memarg } => { let b = self.ld::<1>(inst, memarg)?; self.push(Val::I64(b[0] as u64)) }
                O::I64Load16S { memarg } => { let b = self.ld::<2>(inst, memarg)?; self.push(Val::I64(i16::from_le_bytes(b) as i64 as u64)) }
                O::I64Load16U { memarg } => { let b = self.ld::<2>(inst, memarg)?; self.push(Val::I64(u16::from_le_bytes(b) as u64)) }
                O::I64Load32S { memarg } => { let b = self.ld::<4>(inst, memarg)?; self.push(Val::I64(i32::from_le_bytes(b) as i64 as u64)) }
                O::I64Load32U { memarg } => { let b = self.ld::<4>(inst, memarg)?; self.push(Val::I64(u32::from_le_bytes(b) as u64)) }
                O::I32Store { memarg } => { let v: u32 = self.popt(); self.sto(inst, memarg, &v.to_le_bytes())? }
                O::I64Store { memarg } => { let v: u64 = self.popt(); self.sto(inst, memarg, &v.to_le_bytes())? }
                O::F32Store { memarg } => { let v: F32 = self.popt(); self.sto(inst, memarg, &v.0.to_le_bytes())? }
                O::F64Store { memarg } => { let v: F64 = self.popt(); self.sto(inst, memarg, &v.0.to_le_bytes())? }
                O::I32Store8 { memarg } => { let v: u32 = self.popt(); self.sto(inst, memarg, &v.to_le_bytes()[..1])? }
                O::I32Store16 { memarg } => { let v: u32 = self.popt(); self.sto(inst, memarg, &v.to_le_bytes()[..2])? }
                O::I64Store8 { memarg } => { let v: u64 = self.popt(); self.sto(inst, memarg, &v.to_le_bytes()[..1])? }
                O::I64Store16 { memarg } => { let v: u64 = self.popt(); self.sto(inst, memarg, &v.to_le_bytes()[..2])? }
                O::I64Store32 { memarg } => { let v: u64 = self.popt(); self.sto(inst, memarg, &v.to_le_bytes()[..4])? }
                O::V128Load { memarg } => { let b = self.ld::<16>(inst, memarg)?; self.push(Val::V(V128(b))) }
                O::V128Store { memarg } => { let v: V128 = self.popt(); self.sto(inst, memarg, &v.0)? }
                O::V128Load8x8S { memarg } => { let b = self.ld::<8>(inst, memarg)?; self.push(Val::V(wide(&b, 1, true))) }
                O::V128Load8x8U { memarg } => { let b = self.ld::<8>(inst, memarg)?; self.push(Val::V(wide(&b, 1, false))) }
                O::V128Load16x4S { memarg } => { let b = self.ld::<8>(inst, memarg)?; self.push(Val::V(wide(&b, 2, true))) }
                O::V128Load16x4U { memarg } => { let b = self.ld::<8>(inst, memarg)?; self.push(Val::V(wide(&b, 2, false))) }
                O::V128Load32x2S { memarg } => { let b = self.ld::<8>(inst, memarg)?; self.push(Val::V(wide(&b, 4, true))) }
                O::V128Load32x2U { memarg } => { let b = self.ld::<8>(inst, memarg)?; self.push(Val::V(wide(&b, 4, false))) }
                O::V128Load8Splat { memarg } => { let b = self.ld::<1>(inst, memarg)?; self.push(Val::V(splat(&b))) }
                O::V128Load16Splat { memarg } => { let b = self.ld::<2>(inst, memarg)?; self.push(Val::V(splat(&b))) }
                O::V128Load32Splat { memarg } => { let b = self.ld::<4>(inst, memarg)?; self.push(Val::V(splat(&b))) }
                O::V128Load64Splat { memarg } => { let b = self.ld::<8>(inst, memarg)?; self.push(Val::V(splat(&b))) }
                O::V128Load32Zero { memarg } => { let b = self.ld::<4>(inst, memarg)?; let mut r = [0; 16]; r[..4].copy_from_slice(&b); self.push(Val::V(V128(r))) }
                O::V128Load64Zero { memarg } => { let b = self.ld::<8>(inst, memarg)?; let mut r = [0; 16]; r[..8].copy_from_slice(&b); self.push(Val::V(V128(r))) }
                O::V128Load8Lane { memarg, lane } => { let mut v: V128 = self.popt(); let b = self.ld::<1>(inst, memarg)?; put(&mut v, *lane, &b); self.push(Val::V(v)) }
                O::V128Load16Lane { memarg, lane } => { let mut v: V128 = self.popt(); let b = self.ld::<2>(inst, memarg)?; put(&mut v, *lane, &b); self.push(Val::V(v)) }
                O::V128Load32Lane { memarg, lane } => { let mut v: V128 = self.popt(); let b = self.ld::<4>(inst, memarg)?; put(&mut v, *lane, &b); self.push(Val::V(v)) }
                O::V128Load64Lane { memarg, lane } => { let mut v: V128 = self.popt(); let b = self.ld::<8>(inst, memarg)?; put(&mut v, *lane, &b); self.push(Val::V(v)) }
                O::V128Store8Lane { memarg, lane } => { let v: V128 = self.popt(); self.sto(inst, memarg, getl(&v, *lane, 1))? }
                O::V128Store16Lane { memarg, lane } => { let v: V128 = self.popt(); self.sto(inst, memarg, getl(&v, *lane, 2))? }
                O::V128Store32Lane { memarg, lane } => { let v: V128 = self.popt(); self.sto(inst, memarg, getl(&v, *lane, 4))? }
                O::V128Store64Lane { memarg, lane } => { let v: V128 = self.popt(); self.sto(inst, memarg, getl(&v, *lane, 8))? }
                op => { if !self.pure(op)? { panic!("reference has no rule for {op:?}") } }
            }
            pc += 1;
        }
        Ok(Exit::Return)
    }

    fn mem_init(&mut self, a: usize, g: usize, d: u64, s: u64, n: u64) -> X<()> {
        if s as u128 + n as u128 > self.datas[g].len() as u128 || d as u128 + n as u128 > self.mems[a].bytes.len() as u128 { return trap(Trap::MemOob); }
        let tmp = self.datas[g][s as usize..(s + n) as usize].to_vec();
        self.mems[a].bytes[d as usize..(d + n) as usize].copy_from_slice(&tmp);
        Ok(())
    }
    fn table_init(&mut self, a: usize, g: usize, d: u64, s: u64, n: u64) -> X<()> {
        if s as u128 + n as u128 > self.elems[g].len() as u128 || d as u128 + n as u128 > self.tabs[a].el.len() as u128 { return trap(Trap::TableOob); }
        let tmp = self.elems[g][s as usize..(s + n) as usize].to_vec();
        self.tabs[a].el[d as usize..(d + n) as usize].copy_from_slice(&tmp);
        Ok(())
    }

    /// Numeric and vector instructions, constants: no store access.
    fn pure(&mut self, op: &Op) -> X<bool> {
        use Operator as O;
        match op {
            O::I32Const { value } => self.push(Val::I32(*value as u32)),
            O::I64Const { value } => self.push(Val::I64(*value as u64)),
            O::F32Const { value } => self.push(Val::F32(value.bits())),
            O::F64Const { value } => self.push(Val::F64(value.bits())),
            O::V128Const { value } => self.push(Val::V(V128(*value.bytes()))),
            O::I8x16Shuffle { lanes } => { let b: V128 = self.popt(); let a: V128 = self.popt(); self.push(Val::V(simd::shuffle(a, b, *lanes))) }
            O::I8x16ExtractLaneS { lane } => { let a: V128 = self.popt(); self.push(Val::I32(a.0[*lane as usize] as i8 as i32 as u32)) }
            O::I8x16ExtractLaneU { lane } => { let a: V128 = self.popt(); self.push(Val::I32(a.0[*lane as usize] as u32)) }
            O::I16x8ExtractLaneS { lane } => { let a: V128 = self.popt(); self.push(Val::I32(simd::u16x8(a)[*lane as usize] as i16 as i32 as u32)) }
            O::I16x8ExtractLaneU { lane } => { let a: V128 = self.popt(); self.push(Val::I32(simd::u16x8(a)[*lane as usize] as u32)) }
            O::I32x4ExtractLane { lane } => { let a: V128 = self.popt(); self.push(Val::I32(simd::u32x4(a)[*lane as usize])) }
            O::I64x2ExtractLane { lane } => { let a: V128 = self.popt(); self.push(Val::I64(simd::u64x2(a)[*lane as usize])) }
            O::F32x4ExtractLane { lane } => { let a: V128 = self.popt(); self.push(Val::F32(simd::u32x4(a)[*lane as usize])) }
            O::F64x2ExtractLane { lane } => { let a: V128 = self.popt(); self.push(Val::F64(simd::u64x2(a)[*lane as usize])) }
            O::I8x16ReplaceLane { lane } => { let x: u32 = self.popt(); let mut a: V128 = self.popt(); put(&mut a, *lane, &x.to_le_bytes()[..1]); self.push(Val::V(a)) }
            O::I16x8ReplaceLane { lane } => { let x: u32 = self.popt(); let mut a: V128 = self.popt(); put(&mut a, *lane, &x.to_le_bytes()[..2]); self.push(Val::V(a)) }
            O::I32x4ReplaceLane { lane } => { let x: u32 = self.popt(); let mut a: V128 = self.popt(); put(&mut a, *lane, &x.to_le_bytes()); self.push(Val::V(a)) }
            O::I64x2ReplaceLane { lane } => { let x: u64 = self.popt(); let mut a: V128 = self.popt(); put(&mut a, *lane, &x.to_le_bytes()); self.push(Val::V(a)) }
            O::F32x4ReplaceLane { lane } => { let x: F32 = self.popt(); let mut a: V128 = self.popt(); put(&mut a, *lane, &x.0.to_le_bytes()); self.push(Val::V(a)) }
            O::F64x2ReplaceLane { lane } => { let x: F64 = self.popt(); let mut a: V128 = self.popt(); put(&mut a, *lane, &x.0.to_le_bytes()); self.push(Val::V(a)) }
            _ => return self.numeric(op),
        }
        Ok(true)
    }
    fn numeric(&mut self, op: &Op) -> X<bool> {
        macro_rules! scalar { ($($name:ident ($($a:ident : $t:ty),*) -> ($($r:ty),*) = $e:expr;)*) => {
            match op { $( Operator::$name => { rev!(self; ; $($a : $t),*); let r: R<($($r),*)> = spec::ops::$name($($a),*); let r = r?; if r.open_nan() && self.nan_stop { return Err(Stop::Budget) } r.push_all(self); return Ok(true) } )* _ => {} } } }
        macro_rules! vector { ($($name:ident ($($a:ident : $t:ty),*) -> $r:ty [$k:ident] = $e:expr;)*) => {
            match op { $( Operator::$name => { rev!(self; ; $($a : $t),*); let r: $r = spec::simd::$name($($a),*); if self.nan_stop && vnan(spec::VK::$k, r.to_val()) { return Err(Stop::Budget) } self.push(r.to_val()); return Ok(true) } )* _ => {} } } }
        macro_rules! exact { ($($name:ident ($($a:ident : $t:ty),*) -> ($($r:ty),*) = $e:expr;)*) => {
            match op { $( Operator::$name => { rev!(self; ; $($a : $t),*); let r: R<($($r),*)> = spec::ops::$name($($a),*); r?.push_all(self); return Ok(true) } )* _ => {} } } }
        macro_rules! rev { // bind operands: last argument is on top of the stack
            ($s:ident; $($done:ident : $dt:ty),* ; ) => { $( let $done: $dt = $s.popt(); )* };
            ($s:ident; $($done:ident : $dt:ty),* ; $a:ident : $t:ty $(, $b:ident : $bt:ty)*) => { rev!($s; $a : $t $(, $done : $dt)* ; $($b : $bt),*) };
        }
        spec::int_ops!(scalar);
        spec::intmul_ops!(scalar);
        spec::float_ops!(scalar);
        spec::fsign_ops!(exact);
        spec::conv_ops!(scalar);
        spec::farith_ops!(scalar);
        spec::reinterpret_ops!(exact);
        spec::simd_int_ops!(vector);
        spec::simd_mul_ops!(vector);
        spec::simd_float_ops!(vector);
        spec::simd_farith_ops!(vector);
        Ok(false)
    }

    pub fn const_expr(&mut self, inst: usize, ops: &[Op]) -> Val {
        for op in ops {
            match op {
                Operator::End => {}
                Operator::GlobalGet { global_index } => { let v = self.globs[self.insts[inst].g[*global_index as usize]].val; self.push(v) }
                Operator::RefFunc { function_index } => { let f = self.insts[inst].f[*function_index as usize]; self.push(Val::FuncRef(Some(f as u32))) }
                Operator::RefNull { hty } => { let v = if *hty == wasmparser::HeapType::FUNC { Val::FuncRef(None) } else { Val::ExternRef(None) }; self.push(v) }
                op => { assert!(self.pure(op).unwrap()) }
            }
        }
        self.pop()
    }

    /// Instantiation without the start function; imports are store addresses, already type checked.
    pub fn instantiate(&mut self, m: Rc<RModule>, imp: &[(Kind, usize)]) -> (usize, X<()>) {
        let inst = self.insts.len();
        let mut i = RInst { m: m.clone(), f: vec![], t: vec![], mem: vec![], g: vec![], elem: vec![], data: vec![] };
        for (k, a) in imp { match k { Kind::F => i.f.push(*a), Kind::T => i.t.push(*a), Kind::M => i.mem.push(*a), Kind::G => i.g.push(*a) } }
        for (n, t) in m.funcs.iter().enumerate() { i.f.push(self.funcs.len()); self.funcs.push(RFunc::Wasm { inst, sig: m.types[*t as usize].clone(), code: m.codes[n].clone() }) }
        for t in &m.tables { i.t.push(self.tabs.len()); self.tabs.push(RTab { ty: *t, el: vec![None; t.min as usize] }) }
        for t in &m.mems { i.mem.push(self.mems.len()); self.mems.push(RMem { ty: *t, bytes: vec![0; (t.min * t.page) as usize] }) }
        self.insts.push(i);
        for (ty, init) in &m.globals { let v = self.const_expr(inst, init); let a = self.globs.len(); self.globs.push(RGlob { ty: *ty, val: v }); self.insts[inst].g.push(a) }
        for (_, items) in &m.elems {
            let v = items.iter().map(|e| match self.const_expr(inst, e) { Val::FuncRef(r) | Val::ExternRef(r) => r, _ => panic!() }).collect();
            let a = self.elems.len(); self.elems.push(v); self.insts[inst].elem.push(a)
        }
        for (_, b) in &m.datas { let a = self.datas.len(); self.datas.push(b.clone()); self.insts[inst].data.push(a) }
        let r = (|| {
            for (n, (k, _)) in m.elems.iter().enumerate() {
                let g = self.insts[inst].elem[n];
                match k {
                    SegKind::Active(t, off) => {
                        let d = match self.const_expr(inst, off) { Val::I32(x) => x as u64, Val::I64(x) => x, _ => panic!() };
                        let a = self.insts[inst].t[*t as usize]; let len = self.elems[g].len() as u64;
                        self.table_init(a, g, d, 0, len)?;
                        self.elems[g] = vec![]
                    }
                    SegKind::Declared => self.elems[g] = vec![],
                    SegKind::Passive => {}
                }
            }
            for (n, (k, _)) in m.datas.iter().enumerate() {
                let g = self.insts[inst].data[n];
                if let SegKind::Active(t, off) = k {
                    let d = match self.const_expr(inst, off) { Val::I32(x) => x as u64, Val::I64(x) => x, _ => panic!() };
                    let a = self.insts[inst].mem[*t as usize]; let len = self.datas[g].len() as u64;
                    self.mem_init(a, g, d, 0, len)?;
                    self.datas[g] = vec![]
                }
            }
            Ok(())
        })();
        (inst, r)
    }
}

fn vnan(k: spec::VK, v: Val) -> bool { let Val::V(v) = v else { return false }; match k { spec::VK::Bits => false, spec::VK::F32x4 => simd::u32x4(v).iter().any(|x| F32(*x).nan()), spec::VK::F64x2 => simd::u64x2(v).iter().any(|x| F64(*x).nan()) } }
trait PushAll { fn push_all(self, s: &mut RStore); fn open_nan(&self) -> bool { false } }
impl PushAll for u32 { fn push_all(self, s: &mut RStore) { s.push(self.to_val()) } }
impl PushAll for u64 { fn push_all(self, s: &mut RStore) { s.push(self.to_val()) } }
impl PushAll for F32 { fn open_nan(&self) -> bool { self.nan() } fn push_all(self, s: &mut RStore) { s.push(self.to_val()) } }
impl PushAll for F64 { fn open_nan(&self) -> bool { self.nan() } fn push_all(self, s: &mut RStore) { s.push(self.to_val()) } }
impl PushAll for (u64, u64) { fn push_all(self, s: &mut RStore) { s.push(self.0.to_val()); s.push(self.1.to_val()) } }

fn wide(b: &[u8; 8], w: usize, signed: bool) -> V128 {
    let mut r = [0u8; 16];
    for i in 0..8 / w {
        let src = &b[i * w..i * w + w];
        let fill = if signed && src[w - 1] & 0x80 != 0 { 0xff } else { 0 };
        r[2 * i * w..2 * i * w + w].copy_from_slice(src);
        r[2 * i * w + w..2 * i * w + 2 * w].fill(fill);
    }
    V128(r)
}
fn splat(b: &[u8]) -> V128 { let mut r = [0u8; 16]; for c in r.chunks_mut(b.len()) { c.copy_from_slice(b) } V128(r) }
fn put(v: &mut V128, lane: u8, b: &[u8]) { let w = b.len(); v.0[lane as usize * w..lane as usize * w + w].copy_from_slice(b) }
fn getl(v: &V128, lane: u8, w: usize) -> &[u8] { &v.0[lane as usize * w..lane as usize * w + w] }

impl RStore { fn named(&self, inst: usize, name: &str) -> Option<(Kind, usize)> { self.insts[(*self.alias.get(inst)?)?].export(name) } }
impl Ctx for RStore {
    fn log(&mut self, e: Ev) { self.trace.push(e) }
    fn call(&mut self, inst: usize, name: &str, args: &[Val]) -> Result<Vec<Val>, HErr> {
        let Some((Kind::F, f)) = self.named(inst, name) else { return Err(HErr::Msg("host: no such export".into())) };
        if self.funcs[f].sig().p != args.iter().map(|a| a.ty()).collect::<Vec<_>>() { return Err(HErr::Msg("host: bad args".into())); }
        self.invoke(f, args.to_vec()).map_err(HErr::Stop)
    }
    fn mem_write(&mut self, inst: usize, name: &str, off: usize, b: &[u8]) -> bool {
        let Some((Kind::M, a)) = self.named(inst, name) else { return false };
        let m = &mut self.mems[a].bytes;
        if off as u128 + b.len() as u128 > m.len() as u128 { return false; }
        m[off..off + b.len()].copy_from_slice(b);
        true
    }
    fn mem_read(&mut self, inst: usize, name: &str, off: usize, n: usize) -> Option<Vec<u8>> {
        let Some((Kind::M, a)) = self.named(inst, name) else { return None };
        let m = &self.mems[a].bytes;
        if off as u128 + n as u128 > m.len() as u128 { return None; }
        Some(m[off..off + n].to_vec())
    }
    fn global_set(&mut self, inst: usize, name: &str, v: Val) -> bool {
        let Some((Kind::G, a)) = self.named(inst, name) else { return false };
        let g = &mut self.globs[a];
        if !g.ty.mutable || g.ty.ty != v.ty() { return false; }
        g.val = v;
        true
    }
    fn mem_grow(&mut self, inst: usize, name: &str, delta: u64) -> Option<u64> {
        let Some((Kind::M, a)) = self.named(inst, name) else { return None };
        RStore::mem_grow(self, a, delta)
    }
    fn charge(&mut self, _fuel: u32) -> bool { true }
}
