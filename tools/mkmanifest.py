#!/usr/bin/env python3
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
specs = json.load(open(os.path.join(V, 'specs.json')))
notes = json.load(open(os.path.join(V, 'tools', 'notes.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in specs and i in notes and not notes[i].get('na'):
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=notes[i]['technique'], level=specs[i].get('level', 'model_checking'), level_note=notes[i]['note']))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get('na', 'not built yet')))
m = dict(version=1, setup_cmd='./check --build', checks=checks, not_applicable=na, notes='No hooks in /repo: every check compiles the unmodified sources of the working tree against stand-ins for the missing package cslibs_navigation_utilities (/verif/stubs).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable / not built')
