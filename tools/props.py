#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), tech='', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=list(observe), tech=tech, note=note, na=na))
exec(open(os.path.join(V, 'tools', 'proplist.py')).read())
def main():
    ids = set()
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert p['id'] not in ids and len(p['title']) <= 80, p['id']; ids.add(p['id'])
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': m.split(' @ ')[0], 'where': m.split(' @ ')[1]} for m in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
            for x in p['files']:
                if not os.path.exists('/repo/' + x): print('missing file', p['id'], x)
    checks, na = [], []
    for p in P:
        if p['na']: na.append({'property': p['id'], 'reason': p['na']}); continue
        if not glob.glob(os.path.join(V, 'harness', p['id'] + '_*.cpp')):
            na.append({'property': p['id'], 'reason': 'No check has been built for it yet.'}); continue
        checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'] + ' --tier quick', 'thorough_cmd': './check ' + p['id'] + ' --tier thorough', 'evidence_file': 'evidence/' + p['id'] + '.json',
            'technique': p['tech'] or 'property-based testing: generated inputs against an explicit oracle, choice-sequence shrinking', 'level': 'exploration',
            'level_note': p['note'] or 'Generated-input search against the oracle described in DESIGN.md; shows presence of violations, not their absence outside what was generated.'})
    m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na, 'notes': 'No hooks are needed in /repo. Checks compile the library from the working tree of /repo into /verif/build.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
main()
