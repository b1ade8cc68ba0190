#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every props/cXX.py, not_applicable for the rest."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
 "C26": "not built yet",
}
try:
    from tools.not_applicable import NA
except ImportError:
    pass
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(HERE, 'props', i.lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
        continue
    m = importlib.import_module('props.' + i.lower())
    lvl = getattr(m, 'LEVEL', 'model_checking')
    checks.append({
        'property': i,
        'quick_cmd': './check %s quick' % i,
        'thorough_cmd': './check %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': getattr(m, 'TECHNIQUE', 'symbolic execution of the real Python source (all paths), assertions decided by z3 within bounds, counterexamples replayed on the real code'),
        'level': lvl,
        'level_note': 'Bounds: %s. Assumes: %s.' % (m.BOUNDS, '; '.join(m.ASSUMPTIONS) or 'nothing beyond the encoding'),
    })
out = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/selftest.py', 'checks': checks, 'not_applicable': na,
       'notes': 'Solver-based checking of the real Python code: see DESIGN.md. Known findings: known_findings.txt.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fo:
    json.dump(out, fo, indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
