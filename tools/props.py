#!/usr/bin/env python3
"""Single source for properties.jsonl, MANIFEST.json and tools/crates.map.  Run after editing; props/*.py hold the properties."""
import json, glob, os, sys
R = '/verif'
P, NA = [], []
def prop(id, crate, title, statement, over, quant, why, files, mech, state=None, note='', technique=None, timeout=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, crate=crate, title=title, statement=' '.join(statement.split()), over=over.split(), quant=' '.join(quant.split()), why=' '.join(why.split()), files=files.split(),
        mech=mech, state=state, note=' '.join(note.split()), technique=technique))
def na(id, title, statement, over, quant, why, files, mech, reason):
    prop(id, None, title, statement, over, quant, why, files, mech); NA.append(dict(property=id, reason=reason))
for f in sorted(glob.glob(R + '/tools/props/*.py')):
    exec(compile(open(f).read(), f, 'exec'))
P.sort(key=lambda p: p['id'])
assert len({p['id'] for p in P}) == len(P)
with open(R + '/properties.jsonl', 'w') as o:
    for p in P:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        for f in p['files']: assert os.path.exists('/repo/' + f), (p['id'], f)
        if p['state']: a['state'] = [dict(name=n, meaning=m) for n, m in p['state']]
        o.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'], anchors=a)) + '\n')
T0 = 'explicit-state model checking of the implementation: breadth-first search over all operation sequences, lock-step with a reference model'
N0 = "Exhaustive within the stated alphabet and depth on the real source, compiled unmodified against a stand-in for the FRAME libraries; trusts that stand-in (validated by the repository's own unit tests) and the reference model."
cr = sorted({p['crate'] for p in P if p['crate'] and not p['crate'].startswith('py:')})
m = dict(version=1, setup_cmd='bash setup.sh', checks=[dict(property=p['id'], quick_cmd=f"bash run.sh {p['id']} quick", thorough_cmd=f"bash run.sh {p['id']} thorough",
    technique=p['technique'] or T0, level='model_checking', level_note=(p['note'] + ' ' if p['note'] else '') + N0) for p in P if p['crate']], not_applicable=NA,
    notes='No hooks are needed in /repo: its crates are compiled from their own source files against stand-in dependencies (see DESIGN.md).')
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
with open(R + '/tools/crates.map', 'w') as o:
    for p in P:
        if p['crate']: o.write(f"{p['id']} {p['crate']}\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(R + '/properties.jsonl'): jsonschema.validate(json.loads(l), sc)
    print('schemas ok', len(P), 'properties,', len(NA), 'not applicable')
except ImportError: print('no jsonschema')
