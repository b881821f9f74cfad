#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from props_meta.py"""
import json, os
from props_meta import PROPS, NA
here = os.path.dirname(os.path.abspath(__file__))
have = lambda i: os.path.exists(os.path.join(here, 'props', i + '.py'))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'why_tests_cant')}
        q['quantifier'] = {'over': p.get('over', ['inputs']), 'text': p['for_all']}
        q['anchors'] = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(q) + '\n')
checks = []
na = [{'property': p['id'], 'reason': p['reason']} for p in NA]
for p in PROPS:
    if have(p['id']):
        checks.append({'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
                       'thorough_cmd': './check %s --tier thorough' % p['id'], 'technique': p['technique'],
                       'level': p.get('level', 'proof'), 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.exit(0)"', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: /repo is compiled unmodified. svc = deductive verifier over the LLVM IR that clang emits for the real headers.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
