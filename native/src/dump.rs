//! Plain listing of a module, for replay files.
use std::fmt::Write;
pub fn dump(b: &[u8]) -> String {
    let mut o = String::new();
    let mut n = 0;
    for p in wasmparser::Parser::new(0).parse_all(b) {
        let Ok(p) = p else { writeln!(o, "parse error").unwrap(); break };
        use wasmparser::Payload::*;
        match p {
            TypeSection(r) => for (i, t) in r.into_iter().enumerate() { if let Ok(t) = t { for t in t.types() { writeln!(o, "type {i} {:?}", t.composite_type.inner).unwrap() } } },
            ImportSection(r) => for t in r.into_imports() { if let Ok(t) = t { writeln!(o, "import {t:?}").unwrap() } },
            FunctionSection(r) => for (i, t) in r.into_iter().enumerate() { if let Ok(t) = t { writeln!(o, "func {i} type {t}").unwrap() } },
            TableSection(r) => for t in r { if let Ok(t) = t { writeln!(o, "table {t:?}").unwrap() } },
            MemorySection(r) => for t in r { if let Ok(t) = t { writeln!(o, "memory {t:?}").unwrap() } },
            GlobalSection(r) => for t in r { if let Ok(t) = t { writeln!(o, "global {:?} = {:?}", t.ty, t.init_expr.get_operators_reader().into_iter().collect::<Vec<_>>()).unwrap() } },
            ExportSection(r) => for t in r { if let Ok(t) = t { writeln!(o, "export {t:?}").unwrap() } },
            StartSection { func, .. } => writeln!(o, "start {func}").unwrap(),
            ElementSection(r) => for t in r { if let Ok(t) = t { match &t.kind { wasmparser::ElementKind::Active { table_index, offset_expr } => writeln!(o, "elem active {table_index:?} {:?}", offset_expr.get_operators_reader().into_iter().collect::<Vec<_>>()), wasmparser::ElementKind::Passive => writeln!(o, "elem passive"), _ => writeln!(o, "elem declared") }.unwrap(); match t.items { wasmparser::ElementItems::Functions(f) => writeln!(o, "  {:?}", f.into_iter().collect::<Vec<_>>()).unwrap(), wasmparser::ElementItems::Expressions(_, e) => for x in e { if let Ok(x) = x { writeln!(o, "  {:?}", x.get_operators_reader().into_iter().collect::<Vec<_>>()).unwrap() } } } } },
            DataSection(r) => for t in r { if let Ok(t) = t { match &t.kind { wasmparser::DataKind::Active { memory_index, offset_expr } => writeln!(o, "data active {memory_index} {:?} {:?}", offset_expr.get_operators_reader().into_iter().collect::<Vec<_>>(), t.data), _ => writeln!(o, "data passive {:?}", t.data) }.unwrap() } },
            CodeSectionEntry(f) => {
                writeln!(o, "code {n} locals {:?}", f.get_locals_reader().map(|l| l.into_iter().collect::<Vec<_>>())).unwrap(); n += 1;
                let mut ind = 1usize;
                if let Ok(r) = f.get_operators_reader() { for op in r.into_iter_with_offsets() { if let Ok((op, off)) = op {
                    let s = format!("{op:?}  ;; {off:#x}");
                    if matches!(op, wasmparser::Operator::End | wasmparser::Operator::Else) { ind = ind.saturating_sub(1) }
                    writeln!(o, "{}{s}", "  ".repeat(ind)).unwrap();
                    if matches!(op, wasmparser::Operator::Block { .. } | wasmparser::Operator::Loop { .. } | wasmparser::Operator::If { .. } | wasmparser::Operator::Else) { ind += 1 }
                } } }
            }
            _ => {}
        }
    }
    o
}
