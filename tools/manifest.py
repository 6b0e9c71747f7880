#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, ROOT + '/lib', ROOT + '/checks']
import check
reg = check.registry()
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
checks, na = [], []
for p in props:
    c = reg.get(p['id'])
    if c is None:
        na.append(dict(property=p['id'], reason='no check yet'))
        continue
    checks.append(dict(property=p['id'], quick_cmd='VERIF_TIER=quick python3 check.py ' + p['id'],
                       thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=c.technique, level=c.level, level_note=c.note))
m = dict(version=1, setup_cmd='python3 lib/build.py driver',
         hooks=dict(guard='VP_HOOKS', enable='none needed: every observation point is public API, process boundary or link-time interposition', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='All commits in /repo after "base" are fix: commits; see known_findings.txt and DESIGN.md.')
with open(ROOT + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(na), 'not applicable')
