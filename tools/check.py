#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current working tree.

Runs (a) the deductive obligations of the property (Kani/CBMC harnesses over the compiled crate, Verus over
mechanically extracted functions) and (b) the labelled bounded stand-in (native executions against the
specification semantics), writes evidence/ID.json, prints VIOLATION / KNOWN-FINDING lines, exits 0 or 1."""
import json, os, subprocess, sys, time, re, threading, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props, common
from common import log

def native(pid, tier, seed, secs, res):
    t = time.time()
    exe, err = common.build_native(os.environ.get('TWCHECK_FEATURES', ''))
    if not exe:
        res['native'] = {'undecided': 'the native harness does not build: ' + err[-1500:]}
        return
    out = os.path.join(common.work(), f'{pid}.{tier}.json')
    if os.path.exists(out): os.remove(out)
    p = subprocess.run([exe, 'check', pid, '--seed', str(seed), '--time', str(secs), '--out', out], capture_output=True, text=True, cwd=common.work(), timeout=secs + 200)
    if not os.path.exists(out):
        res['native'] = {'undecided': f'twcheck ended with {p.returncode}: {p.stderr[-800:]}'}
        return
    d = json.load(open(out)); d['build_s'] = None; d['exe'] = exe; d['wall'] = time.time() - t
    res['native'] = d

def native_guard(*a):
    try: native(*a)
    except Exception as x: a[-1]['native'] = {'undecided': f'internal error: {x!r}'}
def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = props.PROPS[pid]
    t0 = time.time()
    res = {}
    secs = P['secs'][0 if tier == 'quick' else 1]
    th = threading.Thread(target=native_guard, args=(pid, tier, seed, secs, res)); th.start()
    proofs = []
    kf = common.known_findings(pid)
    if P.get('kani') or P.get('verus'):
        import proof
        def found():
            n = res.get('native') or {}
            return any(not any(re.search(k['match'], f['fail']) for k in kf) for f in n.get('fails', []) + n.get('crashes', []))
        try: proofs = proof.run(pid, P, tier, found)
        except Exception as x:
            import traceback; traceback.print_exc()
            proofs = [dict(name='proof', tool='none', status='undecided', obligations=1, discharged=0, note=f'internal error: {x!r}')]
    th.join()
    n = res['native']
    fails = []          # (label, text, replay dict, concrete?)
    known = common.known_findings(pid)
    hits = []
    undecided = []
    if 'undecided' in n: undecided.append('bounded part: ' + n['undecided'])
    else:
        for f in n.get('fails', []) + n.get('crashes', []):
            k = next((x for x in known if re.search(x['match'], f['fail'])), None)
            if k: hits.append(k); continue
            fails.append((f"case {f['k']}", f['fail'], {'kind': 'native', 'case': f['k'], 'seed': seed}, True))
        if n.get('generator_errors'): undecided.append('generator: ' + '; '.join(n['generator_errors']))
        if not n.get('compared'): undecided.append('no comparison was made')
    obl = dis = 0
    trusted, assumptions, table = set(), set(P.get('assumptions', [])), []
    for r in proofs:
        table.append({k: r[k] for k in ('name', 'tool', 'status', 'obligations', 'discharged', 'solver_s', 'wall_s', 'functions', 'bounded', 'note') if k in r})
        if not r.get('bounded'): obl += r['obligations']; dis += r['discharged']
        trusted.update(r.get('trusted', [])); assumptions.update(r.get('assumptions', []))
        if r['status'] == 'undecided': undecided.append(f"{r['name']}: {r.get('note', '')}")
        elif r['status'] == 'failed':
            for f in r['failures']:
                fails.append((r['name'], f['text'], {'kind': r['tool'], 'harness': r['name'], **f}, bool(f.get('confirmed'))))
    for k in known:
        # a listed finding is re-established on every run by its own input
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rdir = os.path.join(V, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    conc = [f for f in fails if f[3]]
    report = conc or fails
    rc = 0
    if report:
        label, text, rp, concrete = report[0]
        path = os.path.join(rdir, f'{pid}.json')
        json.dump({'property': pid, 'tier': tier, 'what': text, 'where': label, 'how_to_replay': replay_cmd(pid, rp), 'data': rp, 'all': [(l, t) for l, t, _, _ in fails][:20]}, open(path, 'w'), indent=1)
        print(f'{label}: {text[:1500]}')
        rc = 1
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P['level'], 'wall_s': round(time.time() - t0, 1), 'violations': len(fails),
          'assumptions': sorted(assumptions),
          'coverage': {'evaluations': int(n.get('compared', 0)), 'distinct_nontrivial': int(n.get('distinct', 0)), 'cases': n.get('cases', 0), 'discarded': n.get('discarded', 0),
                       'rule': P['rule'], 'samples': n.get('samples', []) or ['none'], 'exercised': n.get('cover', {}), 'undecided': undecided,
                       'bounded_part': P['bounded']}}
    if P['level'] == 'proof':
        ev['coverage'].update({'obligations': obl, 'discharged': dis, 'checker_cmd': f'python3 tools/check.py {pid}', 'trusted_base': sorted(trusted | set(props.TRUSTED)), 'proofs': table})
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', f'{pid}.json'), 'w'), indent=1)
    for u in undecided: print('UNDECIDED', u[:600])
    if rc:
        print(f"VIOLATION property={pid} replay=evidence/replay/{pid}.json" + ('' if report[0][3] else ' no-failing-input-found'))
    else:
        print(f"{pid}: held; {ev['coverage']['evaluations']} comparisons, {dis}/{obl} obligations, {ev['wall_s']} s")
    # nothing was decided at all: that is no answer
    if not rc and 'undecided' in n and dis == 0: sys.exit(2)
    sys.exit(rc)
def replay_cmd(pid, rp):
    if rp['kind'] == 'native': return f"TWCHECK_DUMP=1 target/native/debug/twcheck case {pid} {rp['seed']} {rp['case']}   (built by tools/check.py; the modules and calls of the failing case are printed)"
    return rp.get('cmd', 'see data')
main()
