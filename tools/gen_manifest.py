#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = 'symbolic execution of the LLVM IR of the real code, assertions decided by an SMT solver (z3)'
out = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [], 'notes': 'See DESIGN.md. run.py regenerates every encoding from /repo on each run; /verif/build holds only the executor and temporary work directories.'}
for p in props:
    i = p['id']
    if i in checks.NA:
        out['not_applicable'].append({'property': i, 'reason': checks.NA[i]})
    elif hasattr(checks, i):
        class C: tier = 'quick'; repo = '/repo'; work = '/tmp'
        d = getattr(checks, i)(False, C)
        out['checks'].append({'property': i, 'quick_cmd': './run.py %s --tier quick' % i, 'thorough_cmd': './run.py %s --tier thorough' % i, 'technique': d.get('technique', TECH), 'level': 'model_checking',
                              'level_note': 'Bounded: every path within the bounds is executed symbolically and every assertion decided by the solver; nothing is claimed outside. Bounds: ' + d['bounds'] + '. Assumes: ' + '; '.join(d['assumptions']) + '.'})
    else:
        out['not_applicable'].append({'property': i, 'reason': 'no check has been built yet'})
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(out['checks']), 'checks')
