#!/usr/bin/env python3
# Writes sections 5 to 8 of DESIGN.md from design.json, evidence/, known_findings.txt and catch.txt (trybugs.sh).
import json, os, re
V = '/verif/'
P = [json.loads(l) for l in open(V+'properties.jsonl')]
D = json.load(open(V+'tools/design.json'))
src = open(V+'DESIGN.md').read()
src = src[:src.index('## 5.')] if '## 5.' in src else src.rstrip()+'\n\n'
o = [src.rstrip()+'\n\n## 5. Property by property\n\n'
 'Bounds in full are in the evidence file of each check (`inputs_and_bounds`); the numbers of assertions are those of a quick run.\n']
for p in P:
    i = p['id']
    if i not in D: continue
    o.append(f"\n**{i} {p['title']}.** {D[i][0]} *Lowering:* {D[i][1]}.")
    f = V+f'evidence/{i}.json'
    if os.path.exists(f):
        c = json.load(open(f))['coverage']
        o.append(f" *Quick run:* {c.get('assertions_proved_by_solver',0)} assertions proved by a solver, {c.get('assertions_decided_by_rewriting',0)} by rewriting"
          + (f", {c['assertions_unknown']} undecided" if c.get('assertions_unknown') else '') + '.')
    o.append('\n')
o.append('\n## 6. Defects found\n\nEach was found by a check (or while writing its property), reproduced natively, repaired in a `fix:` commit of /repo and is listed in `known_findings.txt`. None is left unrepaired.\n\n')
for l in open(V+'known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: o.append(f'* {m[1]} ({m[2]}): {m[3]}\n')
o.append('\nFalse alarms met on the way, and what was done: a property that asked for RotateCW without its documented truncation was weakened to the documented behaviour; the statement on S2 coverings that '
 'expected another projection for other SRIDs was dropped (the function documents none); comparisons exactly on the rounding error of a tolerance are left free by the encoding and never reported.\n')
o.append('\n## 7. Planted changes and what catches them\n\n`seeded/<id>` holds each change with a demonstration; `tools/trybugs.sh` runs the check of its property on /repo with the change applied. '
 'All were written from the property and the code alone; those missed at first led to new harnesses. Result of the last full run (quick tier):\n\n| change | property | needs | caught |\n|---|---|---|---|\n')
C = {}
for l in open(V+'tools/catch.txt'):
    a = l.split()
    if len(a) > 2: C[a[0]] = 'yes' if a[2] == 'rc=1' else 'no'
for d in sorted(os.listdir(V+'seeded')):
    m = json.load(open(V+f'seeded/{d}/meta.json'))
    o.append(f"| {d} | {m['property']} | {m['needs']} | {C.get(d,'not run')} |\n")
o.append('\n## 8. Not applicable\n\n')
for n in json.load(open(V+'MANIFEST.json'))['not_applicable']:
    t = next(p['title'] for p in P if p['id']==n['property'])
    o.append(f"* **{n['property']} {t}.** {n['reason']}\n")
open(V+'DESIGN.md','w').write(''.join(o))
