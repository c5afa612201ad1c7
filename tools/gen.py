#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, claim=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, claim=claim, na=na))

exec(open(os.path.join(root, 'tools', 'props.py')).read())

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
            'quantifier': {'over': p['over'], 'text': ' '.join(p['qtext'].split())},
            'why_tests_cant': ' '.join(p['why'].split()),
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
checks, na = [], []
for p in P:
    if p['claim']:
        tech, note = p['claim']
        checks.append({
            'property': p['id'],
            'quick_cmd': './check.sh %s quick' % p['id'],
            'thorough_cmd': './check.sh %s thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': ' '.join(tech.split()), 'level': 'other', 'level_note': ' '.join(note.split()),
        })
    else:
        na.append({'property': p['id'], 'reason': ' '.join((p['na'] or 'the check is not built yet').split())})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check builds /verif/analyzer and runs it on the current source of /repo; nothing of /repo is executed. Known findings: known_findings.txt.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
