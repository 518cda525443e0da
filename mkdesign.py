"""Regenerate /verif/DESIGN.md: prose + rules/bounds of the check modules + seed results."""
import sys, json, importlib, re
from pathlib import Path
V=Path(__file__).resolve().parent; sys.path.insert(0,str(V))
props=[json.loads(l) for l in open(V/'properties.jsonl')]
notes=json.load(open(V/'notes.json'))
head=(V/'design_head.md').read_text()
out=[head.rstrip(),'','## Per property','']
import os
costs={}
for p in props:
    i=p['id']; m=importlib.import_module(f'mc.checks.{i.lower()}')
    ev=V/'evidence'/f'{i}.json'
    out+= [f"### {i} {p['title']}",'',f"*Explored.* {m.RULE}",'',f"*Quick bounds.* {m.BOUNDS['quick']}.",'',f"*Thorough bounds.* {m.BOUNDS['thorough']}.",'',f"*Assumptions.* {'; '.join(m.ASSUMPTIONS)}.",'',f"*Why this reaches what tests cannot.* {p['why_tests_cant']}",'']
out+=[(V/'design_tail.md').read_text().rstrip(),'']
res=json.load(open(V/'design_seeds.json'))
out+=['## Planted bugs (seeded/) and the checks that catch them','','Every one applies to HEAD, passes all 192 tests and fails its own demonstration.','','| seed | needs | result |','|---|---|---|']
for d in sorted((V/'seeded').iterdir()):
    if not (d/'meta.json').exists(): continue
    m=json.load(open(d/'meta.json'))
    out.append(f"| {d.name} | {m['needs']} | {res.get(d.name,'not run yet')} |")
(V/'DESIGN.md').write_text('\n'.join(out)+'\n')
