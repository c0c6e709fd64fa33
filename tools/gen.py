#!/usr/bin/env python3
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
from meta import P
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
checks, na = [], []
for p in P:
    if p['_na']:
        na.append(dict(property=p['id'], reason=p['_na']))
        continue
    checks.append(dict(property=p['id'], quick_cmd='./check.sh %s' % p['id'], thorough_cmd='VERIF_TIER=thorough ./check.sh %s' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                       technique='symbolic execution of the LLVM IR of the real headers, decided by SMT/SAT (z3, kissat) over bit-vectors; counterexamples replayed on the compiled code',
                       level='model_checking',
                       level_note='Solver verdict for every input within the bounds (%s; %s); unwinding is checked. Trusts clang 18 -O1 IR generation, the /verif/vp encoder (models and random inputs are replayed on the '
                                  'g++ build on every run) and the solvers.' % (p['_bounds'], p['_covers'])))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='Everything is built from /repo at check time; no hooks are compiled into /repo.'), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
S = '/root/.vp/'
if os.path.exists(S):
    jsonschema.validate(json.load(open(R + '/MANIFEST.json')), json.load(open(S + 'MANIFEST.schema.json')))
    sc = json.load(open(S + 'PROPERTIES.schema.json'))
    for l in open(R + '/properties.jsonl'):
        jsonschema.validate(json.loads(l), sc)
print(len(checks), 'checks', len(na), 'not applicable')
