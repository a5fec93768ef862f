#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/lib')
import registry
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
notes = registry.notes()
checks, na = [], []
for p in props:
    i = p['id']
    if i in notes:
        tech, note = notes[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason='no check built yet'))
hooks = dict(guard='cfg(ipmb_verif)',
             enable='RUSTFLAGS="--cfg ipmb_verif", set in /verif/harness/.cargo/config.toml and lib/vlib.py:build_cdylib',
             source_commits=['dc42bb5'])
m = dict(version=1, setup_cmd='python3 check.py --setup', hooks=hooks, checks=checks, not_applicable=na,
         notes='Specifications are in spec/ (TLA+, checked with TLC); lib/ replays their behaviours into the real library through harness/ (an agent process) and checks recorded traces against them.')
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
