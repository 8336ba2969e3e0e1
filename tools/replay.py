#!/usr/bin/env python3
"""replay.py ENTRY HEX...: run one contract natively, against /repo's current tree, on the verifier's values.

Exit 1 (and the failed assertion) if the contract fails there, 0 if it holds, 3 if the values do not fit."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, gen_harness, proof
n = sys.argv[1]
w = os.path.join(common.work(), 'replay'); hk = os.path.join(w, 'hooks')
gen_harness.generate(hk, [n])
r, o = proof.Replay(w, proof.env_for(hk, os.path.join(w, 'target'))).run(n, sys.argv[2:])
print(o); print(n, r)
sys.exit({'passes': 0, 'fails': 1}.get(r, 3))
