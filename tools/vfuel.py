"""C13: the run loops and the fuel accounting, cut out of /repo's current source and verified by Verus for any program.

The functions are taken token by token from the source (rlex.py).  What the extraction changes: visibility, attributes
and lifetimes go; a loop or signature gets the annotations below (`for _` gets a name); comments go.  The types around them are
replaced by structs with the fields these functions use, and `exec` by its contract: one step, after which the run is over
(completed or trapped) or not, and which never adds fuel.  A function that no longer has the expected shape is undecided."""
import os, re, subprocess, time
import common, rlex
REPO = os.environ.get('TW_REPO', '/repo')
SRC = os.path.join(REPO, 'crates/tinywasm/src')
MODEL = '''use vstd::prelude::*;
verus! {
#[derive(Clone, Copy)]
pub struct CallFrame { pub instr_ptr: usize, pub func_addr: u32 }
pub struct Trap { pub code: u8 }
pub enum ExecState { Completed, Suspended(CallFrame) }
pub enum FuelPolicy { PerInstruction, Weighted }
pub struct Config { pub fuel_policy: FuelPolicy }
pub struct Engine { pub conf: Config }
impl Engine { pub fn config(&self) -> (r: &Config) ensures *r == self.conf { &self.conf } }
pub struct Store { pub execution_fuel: u32, pub engine: Engine, pub other: Ghost<int> }
pub struct FuncContext { pub store: Store }
/// `steps`: how often `exec` was called; `over`: the run has completed or trapped
pub struct Executor<const BUDGETED: bool> { pub cf: CallFrame, pub store: Store, pub steps: Ghost<nat>, pub over: Ghost<bool> }
impl<const BUDGETED: bool> Executor<BUDGETED> {
    #[verifier::external_body]
    fn exec(&mut self) -> (r: Result<Option<()>, Trap>)
        requires !old(self).over@,
        ensures final(self).steps@ == old(self).steps@ + 1, final(self).store.execution_fuel <= old(self).store.execution_fuel,
            final(self).over@ == (r is Err || r->Ok_0 is Some),
    { unimplemented!() }
%(charge_call_fuel)s
}
impl Executor<false> {
%(run_to_completion)s
}
impl Executor<true> {
%(run_with_fuel)s
}
impl FuncContext {
%(charge_fuel)s
%(remaining_fuel)s
}
}
'''
FRAME = 'final(self).cf == old(self).cf, final(self).steps == old(self).steps, final(self).over == old(self).over, final(self).store.engine == old(self).store.engine, final(self).store.other == old(self).store.other'
# function: (file, return annotation, contract, attribute, loop annotations in order)
FUNCS = {
 'charge_call_fuel': ('interpreter/executor.rs', '''
        ensures %s,
            !BUDGETED || old(self).store.engine.conf.fuel_policy is PerInstruction ==> final(self).store.execution_fuel == old(self).store.execution_fuel,
            BUDGETED && old(self).store.engine.conf.fuel_policy is Weighted ==> final(self).store.execution_fuel == (if total_fuel_cost <= 1 { old(self).store.execution_fuel as int } else if old(self).store.execution_fuel <= total_fuel_cost - 1 { 0 } else { old(self).store.execution_fuel - (total_fuel_cost - 1) }),
''' % FRAME, '', []),
 'run_to_completion': ('interpreter/executor.rs', '''
        requires !old(self).over@,
        ensures final(self).over@, final(self).steps@ > old(self).steps@,
''', '#[verifier::exec_allows_no_decreases_clause]', ['invariant !self.over@, old(self).steps@ <= self.steps@']),
 'run_with_fuel': ('interpreter/executor.rs', '''
        requires !old(self).over@,
        ensures
            // suspended: the run is not over, the fuel is used up, and the frame is the one to go on from
            r is Ok && r->Ok_0 is Suspended ==> !final(self).over@ && final(self).store.execution_fuel == 0 && r->Ok_0->Suspended_0 == final(self).cf,
            // completed or trapped: the run is over
            !(r is Ok && r->Ok_0 is Suspended) ==> final(self).over@ && fuel > 0,
            fuel == 0 ==> final(self).steps@ == old(self).steps@ && final(self).cf == old(self).cf,
            // progress, and no more steps than fuel, but for the rest of a chunk of 128
            fuel > 0 ==> old(self).steps@ < final(self).steps@ <= old(self).steps@ + fuel + 127,
''', '', ['invariant !self.over@, 0 < self.store.execution_fuel, old(self).steps@ <= self.steps@, self.steps@ + self.store.execution_fuel <= old(self).steps@ + fuel decreases self.store.execution_fuel',
          'invariant !self.over@, self.steps@ == s0 + i_, self.store.execution_fuel <= f0, old(self).steps@ <= s0, s0 + f0 <= old(self).steps@ + fuel, 0 < f0']),
 'charge_fuel': ('func.rs', '''
        ensures final(self).store.execution_fuel == (if old(self).store.execution_fuel <= fuel { 0 } else { old(self).store.execution_fuel - fuel }),
            final(self).store.engine == old(self).store.engine, final(self).store.other == old(self).store.other,
''', '', []),
 'remaining_fuel': ('func.rs', '''
        ensures r == self.store.execution_fuel,
''', '', []),
}
def cut(name):
    file, contract, attr, loops = FUNCS[name]
    t = rlex.lex(open(os.path.join(SRC, file)).read())
    i = rlex.find_seq(t, ['fn', name, '('])
    if i < 0: raise ValueError(f'no function {name}')
    if rlex.find_seq(t, ['fn', name, '('], i + 1) >= 0: raise ValueError(f'{name} is defined twice')
    b = i
    while t[b].s != '{': b += 1
    e = rlex.close(t, b)
    sig = [x.s for x in t[i:b] if x.k != 'life']
    if '->' in sig:
        a = sig.index('->'); sig = sig[:a + 1] + ['(', 'r', ':'] + sig[a + 1:] + [')']
    body, k, j, first = [], 0, b + 1, True
    while j < e:
        if t[j].s in ('loop', 'for', 'while'):
            if k >= len(loops): raise ValueError(f'{name}: a loop of another shape')
            o = j
            while t[o].s != '{': o += 1
            head = [x.s for x in t[j:o]]
            if head[0] == 'for':
                if head[1:3] != ['_', 'in']: raise ValueError(f'{name}: a loop of another shape')
                head[1] = 'i_'; body += ['let', 'ghost', 's0', '=', 'self.steps@;', 'let', 'ghost', 'f0', '=', 'self.store.execution_fuel;']
            elif head != ['loop']: raise ValueError(f'{name}: a loop of another shape')
            body += head + ['\n' + loops[k] + '\n']; k += 1; j = o
            continue
        body.append(t[j].s); j += 1
    if k != len(loops): raise ValueError(f'{name}: a loop of another shape')
    return f"    {attr}\n    {join(sig)}\n{contract}    {{ {join(body)} }}\n"
def join(toks): return re.sub(r'\s*(\.|::)\s*(?=[A-Za-z_])', r'\1', ' '.join(toks)).replace('& mut', '&mut')
TRUST = ['Verus 0.2026.09.13 and Z3', 'vstd: saturating_sub on u32, ranges, Option::is_some', 'the contract of Executor::exec (one step; never adds fuel) and the struct stand-ins around the extracted functions (tools/vfuel.py)']
def run(tier, stop):
    w = os.path.join(common.work(), 'verus-C13'); os.makedirs(w, exist_ok=True)
    out, text = [], {}
    for n in FUNCS:
        try: text[n] = cut(n)
        except Exception as x: out.append(res(n, 'undecided', str(x)[:200]))
    # what cannot be cut out is left out: nothing is said about it
    live = {n: text.get(n, '') for n in FUNCS}
    p = os.path.join(w, 'fuel.rs'); open(p, 'w').write(MODEL % live)
    t = time.time()
    try: r = subprocess.run(['verus', p, '--crate-type=lib', '--multiple-errors', '5'], capture_output=True, text=True, timeout=150, cwd=w)
    except Exception as x: return out + [res(n, 'undecided', repr(x)[:200]) for n in text]
    o = r.stdout + r.stderr; dt = round(time.time() - t, 1)
    m = re.search(r'verification results:: (\d+) verified, (\d+) errors', o)
    if not m: return out + [res(n, 'undecided', 'does not fit the verifier: ' + '; '.join(re.findall(r'^error.*', o, re.M))[:200]) for n in text]
    bad = {}
    lines = open(p).read().split('\n'); at, cur = {}, None
    for i, l in enumerate(lines, 1):
        f = re.match(r'\s*(?:pub )?fn (\w+)', l)
        if f: cur = f.group(1)
        at[i] = cur
    for blk in re.split(r'\n(?=error)', '\n' + o):
        f = re.match(r'\s*error(?:\[\w+\])?: (.*)', blk)
        if not f or f.group(1).startswith('aborting'): continue
        l = re.search(r'--> \S+?:(\d+):', blk)
        # a broken postcondition is reported where it is stated or where the function ends: both lie in the function
        bad.setdefault(at.get(int(l.group(1))) if l else None, []).append((f.group(1), blk[:1500]))
    for n in text:
        b = bad.get(n, []) + (bad.get(None, []) if int(m.group(2)) else [])
        if b and any('resource limit' in x[0] or 'rlimit' in x[0] for x in b): out.append(res(n, 'undecided', 'resource limit'))
        elif b: out.append(dict(res(n, 'failed', ''), failures=[dict(text=f'{n}: {b[0][0]}', obligation=b[0][0], verifier=b[0][1], confirmed=False)]))
        else: out.append(dict(res(n, 'proved', ''), discharged=1, wall_s=dt))
    return out
def res(n, status, note): return dict(name='c13_' + n, tool='verus', status=status, obligations=1, discharged=0, functions=[n], note=note, trusted=TRUST, solver_s=0)
if __name__ == '__main__':
    for r in run('quick', lambda: False): print(r['name'], r['status'], r.get('note'), [f['text'] for f in r.get('failures', [])])
