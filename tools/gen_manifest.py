#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/*.py (docstring, NOTE) and properties.jsonl."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}
nafile = os.path.join(V, 'tools', 'not_applicable.json')
if os.path.exists(nafile):
    NA = json.load(open(nafile))
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    f = os.path.join(V, 'checks', p.lower() + '.py')
    if os.path.exists(f):
        m = importlib.import_module('checks.' + p.lower())
        checks.append(dict(property=p, quick_cmd='python3 run.py %s' % p, thorough_cmd='env VERIF_TIER=thorough python3 run.py %s' % p,
            technique=getattr(m, 'TECHNIQUE', 'TLA+ specification model-checked with TLC; generated histories replayed into the real code and its recorded traces validated against the specification by TLC'),
            level='model_checking', level_note=getattr(m, 'NOTE', 'Every recorded answer of the real code is checked by TLC against the specification, for all histories enumerated within the bounds given in the evidence file and for random longer ones. Trusts TLC, the driver in /verif/drivers, and the stand-in headers for the missing utl/cista libraries in /verif/shim.')))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
    notes='Specifications in TLA+ (/verif/spec), checked with TLC; see DESIGN.md.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
