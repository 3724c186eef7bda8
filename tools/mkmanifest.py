#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when a harness names it, otherwise it is listed as not applicable."""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import run
hs = run.load()
props = [json.loads(L) for L in open(os.path.join(V, 'properties.jsonl'))]
NA = {'N01': 'The XML parser is libxml2 (external, no source here): its code cannot be encoded, and replacing it by a stub would remove what the property is about.',
      'N02': 'Printing and reading floating point text is done by the C library (printf %f, atof); the solver would need a bit-precise encoding of correctly rounded decimal conversion, which is out of reach, and a stub would decide nothing.',
      'N03': 'There is no recovery mechanism to encode: pool durability rests on the operating system\'s page cache and msync, no code of this repository orders or repairs writes.'}
checks, na = [], []
for p in props:
    i = p['id']; h = [x for x in hs.values() if i in x['props']]
    if not h: na.append(dict(property=i, reason=NA.get(i, 'No check has been built for this property yet.'))); continue
    assert i not in NA, i
    b = '; '.join('%s: %s' % (x['name'], t) for x in h if x['tier'] == 'quick' for t in x['bounds'])
    checks.append(dict(property=i, quick_cmd='python3 engine/run.py %s' % i, thorough_cmd='python3 engine/run.py %s --thorough' % i, evidence_file='evidence/%s.json' % i,
        technique='symbolic execution of the real code (LLVM bitcode) with SMT (Z3/cvc5) deciding every path and assertion; counterexamples replayed natively', level='model_checking',
        level_note='Exhaustive over all values within the bounds, nothing claimed outside them. Bounds: %s. Trusts the clang front end, engine/sx, the solvers and the C library model.' % b[:1800]))
m = dict(version=1, setup_cmd='engine/sx/build.sh', checks=checks, not_applicable=na,
         notes='Every check compiles the sources it needs from /repo in each run. known_findings.jsonl lists genuine defects (recorded or fixed).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema; jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props: jsonschema.validate(p, s)
except ImportError: print('run with python3-vt to validate')
print(len(checks), 'claimed', len(na), 'not')
