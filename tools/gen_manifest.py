#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props
NA = {
 'C23': 'A property of thread schedules: whether parallel parsing gives the sequential result for every interleaving is decided by rayon and atomics behind closures; Kani has no thread support and Verus would need permission types on rayon, so no contract within reach expresses it.',
 'C24': 'Absence of panics on arbitrary bytes is decided by wasmparser (a dependency of tens of thousands of lines) together with the visitor; no contract on /repo code alone expresses it, and neither verifier takes wasmparser. The lowering itself (validated input) is covered by C10 and C11.',
}
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'hooks': props.HOOKS, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}
for pid, p in props.PROPS.items():
    m['checks'].append({'property': pid, 'quick_cmd': f'python3 tools/check.py {pid}', 'thorough_cmd': f'python3 tools/check.py {pid} --tier thorough', 'evidence_file': f'evidence/{pid}.json', 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
