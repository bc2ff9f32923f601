#!/usr/bin/env python3
"""Writes MANIFEST.json: every property whose check exists is claimed."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
T = json.load(open(here + '/tools/claims.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique=T[i]['technique'], level='model_checking', level_note=T[i]['note']))
    else:
        na.append(dict(property=i, reason='the check is not built yet'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='All checks drive the real code built from /repo; no hooks in /repo are needed (scheduling points are inserted into overlay copies at build time).')
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
