#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property whose module exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = dict(C01='layout', C02='layout', C03='layout', C04='layout', C05='addrspace', C06='layout', C07='layout',
               C08='instance', C09='scope', C10='values', C11='validity', C12='expr', C13='lexer', C14='determinism',
               C15='robust', C16='packages', C17='ident', C18='fidelity', C19='diag', C20='cli', C21='api')
TECH = json.load(open(V + '/tools/techniques.json'))
checks = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    m = MODULES[p]
    if not os.path.exists(V + '/lib/chk_%s.py' % m):
        continue
    t = TECH[m]
    checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=t['technique'], level='model_checking', level_note=t['note']))
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=[],
               notes='TLA+ specifications in spec/, checked with TLC; no hooks in /repo: the compiler is observed through its command line only.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
