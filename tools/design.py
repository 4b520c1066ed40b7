#!/usr/bin/env python3
"""Assembles DESIGN.md.  Sizes come from the evidence of the last quick runs (run all quick checks first)."""
import json, os
R='/verif'; H=R+'/tools/design/'
exec(open(H+'parts.py').read())
out=[open(H+'head.md').read()]
man={c['property']:c for c in json.load(open(R+'/MANIFEST.json'))['checks']}
cr=dict(l.split() for l in open(R+'/tools/crates.map'))
for l in open(R+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    out.append(f"### {i} {p['title']}\n")
    if i not in man: out.append('Not decided here, see section 4.\n'); continue
    out.append(f"*Enumerated*: {p['quantifier']['text']}.\n")
    out.append(f"*Decided by*: {D[i]}\n")
    e=json.load(open(f'{R}/evidence/{i}.json')); b=[]
    for x in e['coverage'].get('explanation','').split('\n'):
        try: q=json.loads(x)
        except Exception: continue
        if 'part' not in q: continue
        b.append(f"{q['part']}: " + (f"{q['inputs']} inputs" if q.get('inputs') else f"depth {q['depth']}, {q['states']} states, {q['transitions']} transitions"))
    if not b: b=[e['coverage'].get('explanation','')]
    out.append(f"*Quick bounds* ({e['wall_s']:.1f} s, `ws/checks/{cr[i]}`): {'; '.join(b)}. *Assumes*: {'; '.join(e['assumptions'][1:]) or 'the shim only'}.\n" if not cr[i].startswith('py:') else f"*Bounds*: {b[0]}.\n")
    out.append(f"*Why tests cannot*: {p['why_tests_cant']}\n")
for f in ('seeds.md','notes.md','tail.md'): 
    if os.path.exists(H+f): out.append(open(H+f).read())
import glob
t=['| bug | property | needs | caught by the check of its property |','|---|---|---|---|']
for f in sorted(glob.glob(R+'/seeded/*/meta.json')):
    m=json.load(open(f)); t.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m.get('caught','yes')} |")
s='\n'.join(out).replace('SEEDTABLE','\n'.join(t)).replace('MUTCOUNT',open(H+'mutcount.txt').read().strip()).replace('FIXCOUNT',str(len(json.load(open(R+'/known-findings.json'))['fixed'])))
open(R+'/DESIGN.md','w').write(s)
