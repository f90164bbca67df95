#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: a check for every property with a harness, a reason for every other one.
import json, re, glob
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
src = ''.join(open(f).read() for f in glob.glob('/verif/harness/props/*.go'))
have = set(re.findall(r'^func (C\d\d)_', src, re.M))
NOTES = json.load(open('/verif/tools/notes.json'))
NA = {
 'C33': 'The claim is about accumulated rounding and series truncation of sine and cosine polynomials. The standard library trigonometry is outside any SMT theory at the precision needed (uninterpreted, it proves nothing about metres), so no bounded symbolic query decides it.',
}
checks = []
for i in ids:
    if i in have:
        checks.append(dict(property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough',
            technique='bounded symbolic execution of the Go SSA with SMT queries (z3, cvc5), counterexamples replayed natively',
            level='model_checking', level_note=NOTES.get(i, 'every value within the bounds listed in the evidence file')))
na = [dict(property=i, reason=NA.get(i, 'no check built yet')) for i in ids if i not in have]
m = dict(version=1, setup_cmd='./check -setup', checks=checks, not_applicable=na,
    notes='gosym/ is the symbolic executor, harness/ the properties; see DESIGN.md.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
