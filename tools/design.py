#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the property tables, the last evidence, seeded/ and tools/design_tail.md."""
import json, os, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
rd = lambda p: open(os.path.join(root, p)).read()
props = {p['id']: p for p in map(json.loads, rd('properties.jsonl').splitlines())}
man = json.loads(rd('MANIFEST.json'))
o = [rd('tools/design_head.md'), '\n## Per property\n']
for c in man['checks']:
    i = c['property']; p = props[i]
    o.append(f"### {i} {p['title']}\n")
    o.append(f"*Over* {', '.join(p['quantifier']['over'])}: {p['quantifier']['text']}.\n")
    o.append(f"*Method:* {c['technique']}.\n")
    try: e = json.loads(rd(f'evidence/{i}.json'))
    except OSError: e = None
    if e:
        cov = e['coverage']
        rules = cov['explanation'].split(').', 1)[-1].strip()
        o.append(f"*Rules:* {rules}\n")
        per = ', '.join(f"{r['rule']} {r['examined']}" for r in cov['per_rule'])
        o.append(f"*Examined on the current tree:* {cov['constructs_examined']} constructs ({per}).\n")
        o.append(f"*Bounds and trust:* {c['level_note']}" + (f" Not decided: {cov['not_decided']}" if cov.get('not_decided') else '') + '\n')
    o.append(f"*Why tests cannot:* {p['why_tests_cant']}\n")
o.append('## Planted bugs\n')
o.append('| bug | property | caught by | needs | breaks |\n|---|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    o.append(f"| {os.path.basename(d)} | {m['property']} | {m.get('caught_by', m['property'])} | {m['needs']} | {m['what_it_breaks']} |")
o.append('\n' + '\n'.join(f"* {os.path.basename(d)}: {json.load(open(os.path.join(d, 'meta.json')))['history']}" for d in sorted(glob.glob(os.path.join(root, 'seeded', '*'))) if 'history' in json.load(open(os.path.join(d, 'meta.json')))) + '\n')
o.append(rd('tools/design_tail.md'))
for n in man['not_applicable']: o.append(f"* **{n['property']}** {props[n['property']]['title']}: {n['reason']}")
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(o) + '\n')
