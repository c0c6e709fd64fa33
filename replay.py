#!/usr/bin/env python3-vt
"""replay.py <replay.json>: run the recorded counterexample against the library as compiled from /repo now"""
import json
import os
import shutil
import sys
import tempfile
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from vp import core   # noqa: E402
d = json.load(open(sys.argv[1]))
tmp = tempfile.mkdtemp(prefix='vp_replay_')
try:
    bad = False
    args = [('i', a[1], a[2]) if a[0] == 'i' else ('b', bytes(a[1])) for a in d['cex']['args']]
    for kind in ('rel', 'ubfull' if d.get('ubfull') else 'ubsan'):
        so = os.path.join(tmp, kind + '.so')
        core.build_so(d['src'], tuple(d['flags']), kind, so)
        v = core.native_call(so, d['fn'], args)
        print('%s build: %s%r -> %r' % (kind, d['fn'], d['cex']['shown'], v))
        bad = bad or not isinstance(v, int) or v >= 2
finally:
    shutil.rmtree(tmp, ignore_errors=True)
print('violated' if bad else 'holds')
sys.exit(1 if bad else 0)
