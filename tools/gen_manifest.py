#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = __import__('gen_tech').T
checks, na = [], []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        t = TECH[i]
        checks.append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='./check %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=t[0], level='exploration', level_note=t[1]))
    else:
        na.append(dict(property=i, reason='the check is not built yet'))
json.dump(dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
               notes='Every check is a set of Hypothesis facets (generated inputs, histories or figures against an explicit oracle); '
                     'see DESIGN.md. No hooks are needed in /repo.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
