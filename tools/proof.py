"""Deductive obligations of a property: contracts on the compiled crate, discharged by Kani's compiler and CBMC.

Every entry point of /verif/harness is one contract (or a small table of them) over the real, compiled code of /repo,
with fully symbolic operands and state.  A failed obligation is replayed: the verifier's values are fed to the same
entry point compiled natively against the same source."""
import concurrent.futures as cf, json, os, re, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import common, gen_harness
from common import log
KANI = '/root/.kani/kani-0.68.0'
FLAGS = ['--no-standard-checks', '--unwinding-assertions', '--no-malloc-may-fail', '--no-self-loops-to-assumptions', '--object-bits', '16', '--slice-formula', '--verbosity', '9']
TRUST = ['dropping a Trap or Error value has no effect on the machine (its drop code is replaced by an empty body)', 'Kani 0.68 (MIR to GOTO translation and its models of the Rust allocator and intrinsics)', 'CBMC 6.11 symbolic execution', 'CaDiCaL 3.0 / cvc5 1.1.2 as the deciding back ends']
def env_for(hk, tgt):
    e = common.env()
    e.update(TINYWASM_VERIF_HOOKS=hk, RUSTFLAGS='--cfg tinywasm_verif', CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL='0')
    e['PATH'] = KANI + '/bin:' + e['PATH']
    return e
def sh(cmd, timeout, stop=lambda: False, **k):
    """(return code, output); the whole process group is ended on a timeout, or when `stop` says so"""
    end = time.time() + timeout
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True, **k)
    while True:
        try: o, _ = p.communicate(timeout=max(0.1, min(2, end - time.time()))); return p.returncode, o
        except subprocess.TimeoutExpired:
            if time.time() < end and not stop(): continue
            os.killpg(p.pid, 9); p.wait(); return None, ''
def funcs_of(p, groups):
    return sorted({i for g in p['groups'].values() for i in g})
def run(pid, P, tier, found=lambda: False):
    """`found`: a violation with its input is already known; a quick check then leaves the remaining obligations undecided"""
    out = []
    for m in P.get('verus', []): out += __import__(m).run(tier, found)
    if P.get('kani'): out += kani(pid, P, tier, found if tier == 'quick' else lambda: False)
    return out
def kani(pid, P, tier, found):
    hit = threading.Event()
    stop = lambda: (hit.is_set() and tier == 'quick') or found()
    t0 = time.time()
    plan, hand = gen_harness.plan()
    want = [n for n, p in plan.items() if p['prop'] == pid.lower() and (tier == 'thorough' or p['opts'].get('tier') != 'thorough')]
    w = os.path.join(common.work(), 'proof-' + pid)
    hk = os.path.join(w, 'hooks')
    _, groups, notes = gen_harness.generate(hk, want)
    e = env_for(hk, os.path.join(w, 'target'))
    limit = int(os.environ.get('VERIF_PROOF_SECS', P.get('proof_secs', (420, 3000))[0 if tier == 'quick' else 1]))
    def all_undecided(why): return [dict(name=n, tool='kani', status='undecided', obligations=1, discharged=0, note=why) for n in want]
    rc, o = sh(['cargo', 'kani', '--only-codegen', '--lib', '--harness', 'all_entries', '--no-assertion-reach-checks', '-Z', 'unstable-options', '-Z', 'stubbing'], 400, stop, cwd=os.path.join(V, 'harness'), env=e)
    if stop(): return all_undecided('not run: a violation was found')
    if rc != 0: return all_undecided('the contracts do not compile against this tree: ' + '; '.join(l for l in o.splitlines() if l.startswith('error'))[:300])
    import glob
    st = sorted(glob.glob(os.path.join(w, 'target/kani/*/debug/build/harness/*/out/*all_entries*.symtab.out')), key=os.path.getmtime)
    if not st: return all_undecided('no symbol table was produced')
    out = os.path.join(w, 'e.out')
    rc, o = sh(['goto-cc', st[-1], KANI + '/library/kani/kani_lib.c', '-o', out], 200, env=e)
    if rc != 0: return all_undecided('goto-cc: ' + o[-300:])
    # dropping an error value does nothing to the machine: its (recursive) drop code is replaced by an empty body
    rc, o = sh(['goto-instrument', '--list-goto-functions', out], 100, env=e)
    glue = re.findall(r'^\S*drop_glue::<tinywasm::(?:Trap|Error)> /\* (\S+) \*/', o, re.M)
    if glue:
        out2 = out + '2'
        sh(['goto-instrument', *[a for g in glue for a in ('--remove-function-body', g)], out, out2], 100, env=e)
        rc, o = sh(['goto-instrument', '--generate-function-body', '|'.join(glue), '--generate-function-body-options', 'nondet-return', out2, out], 100, env=e)
        if rc != 0: return all_undecided('goto-instrument: ' + o[-300:])
    loops = ''
    if any('loops' in plan[n]['opts'] for n in want): loops = sh(['cbmc', '--show-loops', out], 100, env=e)[1]
    def unwindset(n):
        # a bound of its own for a loop (the unwinding assertion stays): the loop is named by a part of its identifier
        s = []
        for x in plan[n]['opts'].get('loops', '').split(','):
            if x: k, b = x.split(':'); s += [f'{l}:{b}' for l in re.findall(r'^Loop (\S+):$', loops, re.M) if k in l]
        return ['--unwindset', ','.join(s)] if s else []
    heavy = threading.Semaphore(3)
    log(f'{pid}: contracts compiled in {time.time() - t0:.0f} s, {len(want)} entry points')
    deadline = t0 + limit
    rp = Replay(w, e)
    def one(n):
        if plan[n]['opts'].get('heavy'):
            # gigabytes of memory each
            with heavy: return decide(n)
        return decide(n)
    def decide(n):
        p = plan[n]
        t = time.time()
        r = dict(name=n, tool='kani+cbmc/' + p['backend'], functions=funcs_of(p, groups) or [n], bounded=p['opts'].get('bounded', '') == '1', obligations=1, discharged=0, trusted=TRUST, status='undecided')
        if stop(): return dict(r, note='not run: a violation was found', wall_s=0)
        left = deadline - t
        if left < 5: return dict(r, note='out of time', wall_s=0)
        cmd = ['cbmc', out, '--function', n, *FLAGS, '--unwind', p['opts'].get('unwind', '66'), *unwindset(n)] + (['--cvc5'] if p['backend'] == 'cvc5' else ['--z3'] if p['backend'] == 'z3' else ['--sat-solver', 'cadical'])
        rc, o = sh(cmd, left, stop, env=e)
        r['wall_s'] = round(time.time() - t, 1)
        if os.environ.get('VERIF_DEBUG'): open(os.path.join(w, n + '.txt'), 'w').write(o)
        if rc is None: return dict(r, note='not run: a violation was found' if stop() else 'out of time')
        m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', o)
        if m: r['obligations'] = int(m.group(1))
        m = re.findall(r'Runtime Solver: ([\d.e+-]+)s', o) + re.findall(r'Runtime Symex: ([\d.e+-]+)s', o)
        r['solver_s'] = round(sum(map(float, m)), 1)
        nb = set(re.findall(r'no body for (?:function|callee) (\S+)', o)) - set(['__CPROVER_initialize'])
        if 'VERIFICATION SUCCESSFUL' in o:
            # a function without a body returns anything and changes nothing: not a proof
            nb = [x for x in nb if not x.startswith('__CPROVER')]
            if nb: return dict(r, note='functions without a body: ' + ' '.join(sorted(nb))[:200])
            return dict(r, status='proved', discharged=r['obligations'])
        bad = re.findall(r'^\[(\S+?)\] (?:file .*?)?line \d+ (.*): FAILURE$', o, re.M) + [(a, b) for a, b in re.findall(r'^\[([^\]]+)\] (?!.*line)(.*): FAILURE$', o, re.M)]
        if not bad:
            b2 = re.findall(r'^\[(.+?)\] (.*): FAILURE$', o, re.M)
            bad = [(a, re.sub(r'^line \d+ ', '', b)) for a, b in b2]
        unw = [b for b in bad if 'unwind' in b[0] or 'unwinding' in b[1] or 'recursion' in b[0]]
        if not bad: return dict(r, note='no verdict: ' + o[-200:].replace('\n', ' '))
        if unw: return dict(r, note='a loop exceeds the unwinding bound: ' + unw[0][0])
        r['discharged'] = max(0, r['obligations'] - len(bad))
        txt = clean(bad[0][1])
        vals = counterexample(cmd, bad, e, min(300, deadline - time.time() + 100))
        if vals is None: return dict(r, status='failed', failures=[dict(text=f'{n}: {txt}', obligation=bad[0][0], verifier=o[-3000:], confirmed=False)])
        v, ro = rp.run(n, vals)
        cmdl = f'python3 tools/replay.py {n} ' + ' '.join(vals)
        if v == 'passes': return dict(r, status='undecided', note=f'counterexample to "{txt}" does not fail on the compiled code (model imprecision)')
        if v == 'fails': hit.set()
        return dict(r, status='failed', failures=[dict(text=f'{n}: {txt} (operands and state, in order: {" ".join(vals)[:400]})', obligation=bad[0][0], values=vals, cmd=cmdl, replay=v, replay_output=ro[-1500:], confirmed=v == 'fails')])
    # long ones first
    order = sorted(want, key=lambda n: -float(plan[n]['opts'].get('cost', 10 if plan[n]['backend'] == 'cadical' else 15)))
    with cf.ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as ex: res = list(ex.map(one, order))
    if notes: res[0]['note'] = (res[0].get('note', '') + ' ' + '; '.join(notes)).strip()
    return sorted(res, key=lambda r: r['name'])
def clean(t):
    m = re.search(r'concat! ?\((.*)\)', t)
    if m: t = ''.join(re.findall(r'"([^"]*)"|stringify! ?\((\w+)\)', m.group(1))[i][j] for i in range(len(re.findall(r'"([^"]*)"|stringify! ?\((\w+)\)', m.group(1)))) for j in (0, 1))
    return t[:300]
def counterexample(cmd, bad, e, timeout):
    c = [x for x in cmd if x not in ('--slice-formula',)]
    i = c.index('--verbosity'); del c[i:i + 2]
    rc, o = sh(c + ['--trace', '--json-ui', '--stop-on-fail'] if False else c + ['--trace', '--json-ui', '--property', bad[0][0]], max(60, timeout), env=e)
    try: d = json.loads(o)
    except Exception: return None
    for x in d:
        for r in x.get('result', []) if isinstance(x, dict) else []:
            if r.get('status') == 'FAILURE' and r.get('trace'): return values(r['trace'])
    return None
def values(trace):
    vals = []
    stack = []
    for s in trace:
        if s.get('stepType') == 'function-call': stack.append(s['function'].get('displayName', '') + ' ' + s['function'].get('identifier', ''))
        elif s.get('stepType') == 'function-return':
            if stack: stack.pop()
        elif s.get('stepType') == 'assignment' and 'goto_symex$$return_value' in s.get('lhs', '') and stack and 'any_raw_' in stack[-1]:
            h = to_hex(s['value'])
            if h is None: return None
            vals.append(h)
    return vals
def to_hex(v):
    if 'binary' in v and v.get('name') != 'struct':
        b = v['binary']; n = max(8, (len(b) + 7) // 8 * 8)
        return int(b, 2).to_bytes(n // 8, 'little').hex()
    if v.get('name') == 'array': parts = [to_hex(x['value']) for x in v['elements']]
    elif v.get('name') == 'struct': parts = [to_hex(x['value']) for x in v['members']]
    else: return None
    return None if any(p is None for p in parts) else ''.join(parts)
class Replay:
    def __init__(s, w, e): s.w, s.e, s.lock, s.exe = w, dict(e, CARGO_TARGET_DIR=os.path.join(w, 'native')), threading.Lock(), None
    def build(s):
        with s.lock:
            if s.exe is None:
                rc, o = sh(['cargo', 'build', '--offline', '--bin', 'replay'], 300, cwd=os.path.join(V, 'harness'), env=s.e)
                s.exe = os.path.join(s.w, 'native/debug/replay') if rc == 0 else ''
                if rc: log('replay binary does not build: ' + o[-600:])
            return s.exe
    def run(s, n, vals):
        x = s.build()
        if not x: return 'not built', ''
        rc, o = sh([x, n, *vals], 60, env=s.e)
        return {0: 'passes', 1: 'fails'}.get(rc, 'diverged' if rc == 3 else 'fails' if rc and rc < 0 else 'unknown'), o
