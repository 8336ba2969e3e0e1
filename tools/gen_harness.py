"""Generates, from /repo's current executor.rs, the groups of `Executor::exec` that the contracts are checked on.

A group is `exec` itself with the arms of its instruction match that do not belong to the group removed and a
panicking catch-all added (so a missing arm fails verification, it is never skipped).  Everything else - prelude,
kept arms, the code after the match, every function called - is the code of /repo, compiled in its own module.
If the match cannot be found, or an instruction has no arm of its own, the group falls back to the whole `exec`."""
import os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import rlex
REPO = os.environ.get('TW_REPO', '/repo')
EXE = os.path.join(REPO, 'crates/tinywasm/src/interpreter/executor.rs')
SPEC_TABLES = {  # table macro: (property, chunk size, back end)
    'int_ops': ('c01', 5, 'cadical'), 'intmul_ops': ('c01', 3, 'cvc5'), 'float_ops': ('c02', 8, 'cadical'), 'fsign_ops': ('c02', 8, 'cadical'), 'conv_ops': ('c02', 6, 'cadical'), 'farith_ops': ('c02', 4, 'cvc5'), 'reinterpret_ops': ('c02', 8, 'cadical'),
    'simd_int_ops': ('c03', 5, 'cadical'), 'simd_mul_ops': ('c03', 3, 'cvc5'), 'simd_float_ops': ('c03', 8, 'cadical'), 'simd_farith_ops': ('c03', 4, 'cvc5'),
}
# no arm of their own: lowered away by the compiler
NO_ARM = {'I32ReinterpretF32', 'I64ReinterpretF64', 'F32ReinterpretI32', 'F64ReinterpretI64'}
# CBMC leaves the square root and the float remainder (in nearest) open, so nothing can be concluded about them
NO_MODEL = {'F32Sqrt', 'F64Sqrt', 'F32x4Sqrt', 'F64x2Sqrt', 'F32Nearest', 'F64Nearest', 'F32x4Nearest', 'F64x2Nearest'}
# products of two lanes whose sums no back end settles quickly: an entry of their own (quick: the native part only)
SLOW = {'I16x8Q15MulrSatS': {'tier': 'thorough'}, 'I32x4DotI16x8S': {'tier': 'thorough'}}
def spec_ops():
    """[(table, [(name, text of the row up to '=')])] read from the specification's tables"""
    out = {}
    for f in ('ops.rs', 'simd.rs'):
        s = open(os.path.join(V, 'spec/src', f)).read()
        for m in re.finditer(r'macro_rules! (\w+_ops) \{ \(\$cb:ident\) => \{ \$cb! \{(.*?)^\} \} \}', s, re.S | re.M):
            rows = re.findall(r'^\s*(\w+) ?\(([^)]*)\) -> (\([^)]*\)|\w+)(?: \[(\w+)\])?', m.group(2), re.M)
            out[m.group(1)] = rows
    return out
def exec_parts():
    s = open(EXE).read()
    t = rlex.lex(s)
    f = rlex.find_seq(t, ['fn', 'exec', '('])
    if f < 0: raise ValueError('no fn exec')
    b = f
    while t[b].s != '{': b += 1
    e = rlex.close(t, b)
    best = None
    for i in range(b, e):
        if t[i].s != 'match': continue
        j = i + 1
        while t[j].s != '{':
            if t[j].s in ('(', '['): j = rlex.close(t, j)
            j += 1
        try: a = rlex.arms(t, j, rlex.close(t, j))
        except ValueError: continue
        if best is None or len(a) > len(best[0]): best = (a, j)
    a, j = best
    k = rlex.close(t, j)
    sig = s[t[f].a:t[b].a]
    arms = [({x.s for x in p if x.k == 'id'}, [x.s for x in p], s[q:r]) for p, (q, r) in a]
    return s[t[b].b:t[j].b], arms, s[t[k].a:t[e].b]
def sources():
    """groups and entry points written by hand in harness/src: ({group: instructions}, {entry: options})"""
    g, e = {}, {}
    d = os.path.join(V, 'harness/src')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.rs'): continue
        t = open(os.path.join(d, f)).read()
        for m in re.finditer(r'group!\((\w+): ([^)]*)\)', t): g[m.group(1)] = m.group(2).split()
        for m in re.finditer(r'^entries! \{ (\w+) :(.*?)^\}', t, re.S | re.M):
            for x in re.finditer(r'^\s*(\w+) => (?:.*?)(?://\s*@(.*))?$', m.group(2), re.M): e[x.group(1)] = dict(kv.split('=') for kv in (x.group(2) or '').split())
    return g, e
def plan():
    """every entry point: {name: {'prop', 'group', 'ins', 'backend', 'code' or None}}"""
    P = {}
    for table, (prop, n, be) in SPEC_TABLES.items():
        rows = [r for r in spec_ops()[table] if r[0] not in NO_ARM and r[0] not in NO_MODEL]
        slow = [r for r in rows if r[0] in SLOW]
        rows = [r for r in rows if r[0] not in SLOW]
        for name, ch, o in [(f'{prop}_{table[:-4]}_{c // n}', rows[c:c + n], {}) for c in range(0, len(rows), n)] + [(f'{prop}_{r[0]}', [r], SLOW[r[0]]) for r in slow]:
            def ret(r): return r if r.startswith('(') else f'({r})'
            code = f'#[unsafe(no_mangle)] pub extern "C" fn {name}() {{ let mut mach = M::new(8); ' + ' '.join(f'vop!(mach, {name}, {r[0]}, ({r[1]}), {r[2]}, {r[3]});' if r[3] else f'op!(mach, {name}, {r[0]}, ({r[1]}), {ret(r[2])});' for r in ch) + ' mach.done(); }'
            P[name] = {'prop': prop, 'groups': {name: [r[0] for r in ch]}, 'backend': o.get('backend', be), 'code': code, 'opts': o}
    g, e = sources()
    for name, o in e.items():
        P[name] = {'prop': name[:3], 'groups': {}, 'backend': o.get('backend', 'cadical'), 'code': None, 'opts': o}
    return P, g
def generate(out, want=None):
    """writes the hooks and the generated entries into `out`; only the entries in `want` are reachable for Kani"""
    os.makedirs(out, exist_ok=True)
    P, hand = plan()
    if want is None: want = list(P)
    notes, body = [], []
    groups = {}
    for n, p in P.items(): groups.update(p['groups'])
    groups.update(hand)
    live = {g for n in want for g in P[n]['groups']} | {g for g in hand if any(n[:3] == g[:3] for n in want)}
    try: pre, arms, post = exec_parts()
    except Exception as x:
        pre = None; notes.append(f'exec could not be split ({x}): every group is the whole function')
    for name, ins in groups.items():
        if name not in live:
            body.append(f'#[allow(non_camel_case_types)] pub struct {name}; impl Group for {name} {{ fn run<const B: bool>(ex: &mut Executor<\'_, B>) -> Result<Option<()>, Trap> {{ ex.exec() }} }}\n'); continue
        whole = pre is None
        kept = []
        if not whole:
            found = set()
            for ids, toks, text in arms:
                if ids & set(ins) or toks == ['_']: kept.append(text); found |= ids & set(ins)
            if set(ins) - found: whole = True; notes.append(f'{name}: no arm for {sorted(set(ins) - found)}, the whole exec is used')
        if whole: fn = '{ self.exec() }'
        else: fn = '{' + pre + '\n' + '\n'.join(k if k.rstrip().endswith(',') or k.rstrip().endswith('}') else k + ',' for k in kept) + '\n#[allow(unreachable_patterns)] _ => panic!("instruction outside the group"),\n' + post
        body.append(f'impl<\'store, const BUDGETED: bool> Executor<\'store, BUDGETED> {{ #[allow(unused)] #[inline(always)] fn exec__{name}(&mut self) -> Result<Option<()>, Trap> {fn} }}\n'
                    f'#[allow(non_camel_case_types)] pub struct {name}; impl Group for {name} {{ fn run<const B: bool>(ex: &mut Executor<\'_, B>) -> Result<Option<()>, Trap> {{ ex.exec__{name}() }} }}\n')
    write(os.path.join(out, 'executor.rs'), open(os.path.join(V, 'harness/hooks/executor.rs')).read() + '\n' + ''.join(body))
    # contracts on the memories and on linking name their fields and functions: they are compiled for C05 and C16 only, so that a
    # change there leaves the others alone
    own = {'c05_': ('memories', ('vec_memory.rs', 'paged.rs', 'lazy.rs')), 'c16_': ('link', ('imports.rs',))}
    on = [k for k in own if any(n.startswith(k) for n in want)]
    off = {f for k in own if k not in on for f in own[k][1]}
    for f in os.listdir(os.path.join(V, 'harness/hooks')):
        if f != 'executor.rs': write(os.path.join(out, f), open(os.path.join(V, 'harness/hooks', f)).read() if f not in off else '')
    write(os.path.join(out, 'gen.rs'), '\n'.join(p['code'] for p in P.values() if p['code']) + '\n')
    write(os.path.join(out, 'all.rs'), ''.join(f'#[path = "{V}/harness/src/{own[k][0]}.rs"] mod {own[k][0]}; use {own[k][0]}::*;\n' for k in on) + '#[cfg(kani)] #[kani::proof] ' + ('#[kani::stub(tinywasm::engine::MemoryBackend::create, crate::memories::create)] ' if any(n.startswith('c05_lazy') for n in want) else '') + 'fn all_entries() { ' + ' '.join(f'{n}();' for n in want) + ' }\n'
          '#[cfg(not(kani))] pub static LIST: &[(&str, extern "C" fn())] = &[' + ', '.join(f'("{n}", {n})' for n in P if n[:4] not in own or n[:4] in on) + '];\n')
    return P, groups, notes
def write(p, s):
    if os.path.exists(p) and open(p).read() == s: return
    open(p, 'w').write(s)
if __name__ == '__main__':
    P, _ = plan()
    w = [n for n in P if len(sys.argv) < 3 or re.search(sys.argv[2], n)]
    p, g, n = generate(sys.argv[1], w)
    print(len(w), 'of', len(p), 'entries'); print('\n'.join(n))
