#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, tools/levels.json and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
lv = json.load(open(V + '/tools/levels.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.cc' % (V, i)) and i in lv and 'na' not in lv[i]:
        d = lv[i]
        checks.append(dict(property=i, quick_cmd='./run %s --tier quick' % i, thorough_cmd='./run %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=d['technique'], level=d['level'], level_note=d['note']))
    else:
        na.append(dict(property=i, reason=lv.get(i, {}).get('na', 'Not claimed: no check has been built for it yet.')))
m = dict(version=1, setup_cmd='./run --build-all', checks=checks, not_applicable=na,
         notes='Every check compiles the sources of /repo it needs (working tree) together with the explorer in lib/ and enumerates executions of the real code; see DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed;', len(na), 'not:', ' '.join(x['property'] for x in na))
