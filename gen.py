#!/usr/bin/env python3
"""Regenerate properties.jsonl, MANIFEST.json and the per-property section of DESIGN.md from props.py."""
import json, os, re
from props import PROPS
from specs import SPECS
V = os.path.dirname(os.path.abspath(__file__))
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}}) + '\n')
checks, na = [], []
for p in PROPS:
    if p['na'] or p['id'] not in SPECS: na.append({'property': p['id'], 'reason': p['na'] or 'no check built yet'}); continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'symbolic execution of LLVM IR compiled from the code, decided by SMT (Z3, cvc5)', 'level': 'model_checking', 'level_note': 'Bounds: %s. %s.' % (p['bounds'], p['note'].rstrip('.'))})
json.dump({'version': 1, 'setup_cmd': 'make -j8 -C engine', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks in /repo are used. Counterexamples are replayed against a native build of the same code before a VIOLATION is printed. Known and fixed defects: known-findings.txt.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
sec = []
for p in PROPS:
    s = '### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    if p['na']: s += '**Not applicable:** %s\n' % p['na']
    else: s += '*Decided by:* %s\n\n*Bounds:* %s. *Note:* %s\n\n*Entries:* %s\n' % (p['how'], p['bounds'], p['note'], ', '.join('`%s`' % e['name'] for g in SPECS.get(p['id'], {}).get('groups', []) for e in g['entries']))
    sec.append(s)
if os.path.exists(V + '/DESIGN.md'):
    d = open(V + '/DESIGN.md').read(); d = re.sub(r'(<!-- properties -->\n).*(<!-- /properties -->)', lambda m: m.group(1) + '\n'.join(sec) + m.group(2), d, flags=re.S); open(V + '/DESIGN.md', 'w').write(d)
