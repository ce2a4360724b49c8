#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/props.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'lib'))
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
checks, na = [], []
for i in ids:
    if i in props.CHECKS:
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           evidence_file='evidence/%s.json' % i, technique=props.TECH.get(i, props.TECH['*']), level='model_checking',
                           level_note=props.NOTE.get(i, props.NOTE['*'])))
    else:
        na.append(dict(property=i, reason=props.NA.get(i, 'the check is not built yet')))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
         hooks=dict(guard='none', enable='no hooks: the checks use the public API only', source_commits=[]),
         notes='TLA+ specification in spec/, explored with TLC; behaviours are replayed into the library by the Go programs in harness/.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
