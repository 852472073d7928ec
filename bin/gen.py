#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and na.py."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent; sys.path.insert(0, str(V / 'bin'))
from props import PROPS
from na import NA
def line(i, p): return {'id': i, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
    'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p.get('observe') or [b for a, b in p['mech']], 'hook_needed': None}}
rows = [line(i, p) for i, p in PROPS.items()] + [line(i, p) for i, p, _ in NA]
rows.sort(key=lambda r: r['id'])
for r in rows: assert len(r['title']) <= 80, r['id']
(V / 'properties.jsonl').write_text(''.join(json.dumps(r) + '\n' for r in rows))
tech = lambda p: {'proof': 'deductive verification: contracts on the extracted functions, discharged by ' + ' and '.join((['Verus/Z3'] if p['verus'] else []) + (['Kani/CBMC (loop-free, full domain)'] if p['kani'] else [])) + '; native replay for failing inputs'}.get(p['level'], 'contract-based: runtime contract checks on the compiled functions, bounded')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [{'property': i, 'quick_cmd': f'bin/check {i}', 'thorough_cmd': f'VERIF_TIER=thorough bin/check {i}', 'technique': tech(p), 'level': p['level'], 'level_note': p['note'] + ' Assumes: ' + '; '.join(p['assumptions'])} for i, p in sorted(PROPS.items())],
     'not_applicable': [{'property': i, 'reason': r} for i, p, r in NA], 'notes': 'Units under specs/; see DESIGN.md. No hooks in /repo: functions are extracted mechanically from the working tree on every run.'}
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')

import re
D = V / 'DESIGN.md'; t = D.read_text()
def put(name, body):
    global t
    t = re.sub(rf'<!-- gen:{name} -->.*?<!-- /gen:{name} -->', lambda m: f'<!-- gen:{name} -->\n{body}\n<!-- /gen:{name} -->', t, flags=re.S)
def sec(i, p):
    l = [f'### {i} {p["title"]}', '', p['statement'], '', f'* Decided by: {p["level"]}; units ' + ', '.join(f'`{u}`' for u in p['verus'] + p['kani']) + (f'; replay `{p["harness"]["crate"]} {p["harness"]["prop"]}`' if p['harness'] else '') + '.', f'* Coverage: {p["note"]}', f'* Quantifies over {p["quant"]}; tests cannot: {p["why"]}.']
    if p['assumptions']: l.append('* Assumes: ' + '; '.join(p['assumptions']) + '.')
    if p['bounded']: l.append('* Bounded only: ' + '; '.join(p['bounded']) + '.')
    return '\n'.join(l) + '\n'
put('props', '\n'.join(sec(i, p) for i, p in sorted(PROPS.items())))
put('na', '\n'.join(f'* **{i} {p["title"]}**: {r}' for i, p, r in NA) or 'None of the listed properties.')
rows = ['| change | property | needs | breaks | caught by |', '|---|---|---|---|---|']
missed = {}
for d in sorted((V / 'seeded').glob('*/meta.json')):
    m = json.loads(d.read_text()); rows.append(f'| {d.parent.name} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} | {missed.get(d.parent.name, "bin/check " + m["property"])} |')
put('seeds', '\n'.join(rows))
D.write_text(t)
