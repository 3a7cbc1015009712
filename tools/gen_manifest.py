#!/usr/bin/env python3
"""Writes MANIFEST.json from py/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'py'))
sys.dont_write_bytecode = True
from registry import CHECKS
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} --thorough',
                           technique=c['technique'], level=c['level'], level_note=c['note']))
    elif i == 'G01':
        na.append(dict(property=i, reason='Geant4, Eigen and TensorFlow are not installed in this sandbox and cannot be '
                       'fetched, so Source/Geant cannot be compiled and no input can be run through it.'))
    else:
        na.append(dict(property=i, reason='No check built yet.'))
m = dict(version=1, setup_cmd='python3 setup.py', hooks=dict(guard='none', enable='no hooks are needed: the checks drive the '
         'public classes, the command line program and the Python module built from the working tree'),
         checks=checks, not_applicable=na,
         notes='check.py builds the working tree of /repo under /verif/.build (ignored by git), runs the generators and writes '
               'evidence/<id>.json. "check.py <id> --replay FILE" runs one recorded case again.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
