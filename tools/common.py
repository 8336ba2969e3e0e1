import json, os, subprocess, sys, fcntl, contextlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def work():
    d = os.path.join(V, 'work'); os.makedirs(d, exist_ok=True); return d
def log(*a): print(*a, file=sys.stderr, flush=True)
def env():
    e = dict(os.environ)
    # the toolchain settings of the repository's own build
    o = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True, text=True).stdout
    for kv in o.split('\0'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            if k not in ('_', 'PWD', 'SHLVL'): e[k] = v
    e['CARGO_NET_OFFLINE'] = 'true'
    return e
@contextlib.contextmanager
def lock(name):
    with open(os.path.join(work(), name + '.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX); yield
def build_native(features=''):
    e = env(); e['CARGO_TARGET_DIR'] = os.path.join(V, 'target', 'native')
    with lock('native'):
        p = subprocess.run(['cargo', 'build', '--offline'] + (['--features', features] if features else []), cwd=os.path.join(V, 'native'), env=e, capture_output=True, text=True)
    if p.returncode: return None, p.stderr
    return os.path.join(V, 'target', 'native', 'debug', 'twcheck'), ''
def known_findings(pid):
    """known-findings.txt: 'finding: property=<id> match=/<regex>/ <what>' and 'fixed: property=<id> <commit> <what>' (the latter suppress nothing)"""
    out = []
    f = os.path.join(V, 'known-findings.txt')
    if not os.path.exists(f): return out
    import re
    for l in open(f):
        m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', l.strip())
        if m and m.group(1) == pid: out.append({'match': m.group(2), 'what': m.group(3)})
    return out
