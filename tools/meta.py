#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables in tools/props/*.py."""
import json, os, glob
here = os.path.dirname(os.path.abspath(__file__))
props, na = [], []
def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na_reason=None, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, 'more than three sentences')
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: p['anchors']['state'] = state
    if observe: p['anchors']['observe_at'] = observe
    p['anchors']['hook_needed'] = None
    props.append((p, technique, note, na_reason))
for f in sorted(glob.glob(os.path.join(here, 'props', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
props.sort(key=lambda x: x[0]['id'])
root = os.path.dirname(here)
for p, *_ in props:
    for f in p['anchors']['files']:
        if not os.path.exists(os.path.join('/repo', f)): raise SystemExit(f"{p['id']}: no such file {f}")
with open(os.path.join(root, 'properties.jsonl'), 'w') as o:
    for p, *_ in props: o.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='./build.sh', checks=[], not_applicable=[],
         notes='One Go program (analyzer/) decides every property from the source of /repo; run.sh ID runs one check. Known genuine defects are in KNOWN_FINDINGS.txt.')
for p, t, n, r in props:
    if r: m['not_applicable'].append(dict(property=p['id'], reason=r))
    else: m['checks'].append(dict(property=p['id'], quick_cmd=f"./run.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p['id']}",
                                  evidence_file=f"evidence/{p['id']}.json", technique=t, level='other', level_note=n))
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
try:
    import jsonschema
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json'))
    for p, *_ in props: jsonschema.validate(p, ps)
    jsonschema.validate(m, ms)
except ImportError: pass
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
