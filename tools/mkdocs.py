#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and DESIGN.md from docs/props.py and docs/*.md (authoring aid)."""
import json
import os
import sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'docs'))
import props  # noqa: E402

lines, checks, na, design = [], [], [], []
for p in props.PROPS:
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['forall']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
    }))
    assert len(p['title']) <= 80, p['id']
    head = f"### {p['id']} - {p['title']}\n\n*Property.* {p['statement']}\n\n"
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
        design.append(head + f"**Not applicable.** {p['na']}\n")
        continue
    assert os.path.exists(os.path.join(ROOT, 'hcsa', 'rules', p['id'].lower() + '.py')), p['id']
    checks.append({'property': p['id'], 'quick_cmd': f"python3 run.py {p['id']}",
                   'thorough_cmd': f"VERIF_TIER=thorough python3 run.py {p['id']}",
                   'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    design.append(head + p['design'].strip() + '\n')
open(os.path.join(ROOT, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -c "import ast, json, sys; assert sys.version_info >= (3, 9)"',
       'checks': checks, 'not_applicable': na,
       'notes': 'All checks are static: they parse /repo with the ast module and never import or run it. Nothing to build.'}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
rd = lambda n: open(os.path.join(ROOT, 'docs', n)).read()
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(rd('design_head.md') + '\n'.join(design) + '\n' + rd('design_tail.md'))
print(len(checks), 'checks,', len(na), 'not applicable')
