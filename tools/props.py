#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run by hand; both results are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))
TECH = 'contract-based deductive verification of the compiled real code (symbolic execution of LLVM IR per contract, obligations discharged by a ring normaliser, z3 and cvc5)'
NOTE = 'Every obligation generated from /repo is discharged for all inputs under the stated preconditions, doubles read as mathematical reals and libm as the mathematical functions; the verifier, clang and the SMT solvers are trusted. Contracts reported as bounded in the evidence are not counted as proved.'
CLAIM = {}
NA = {}
exec(open(V + '/tools/props_data.py').read())
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(p) + '\n' for p in P))
ids = [p['id'] for p in P]
man = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[], notes='Contracts in contracts/, verifier in vc/; DESIGN.md describes both.')
for i in ids:
    if i in CLAIM:
        man['checks'].append(dict(property=i, quick_cmd='python3 vc/check.py %s quick' % i, thorough_cmd='python3 vc/check.py %s thorough' % i, technique=TECH, level=LEVEL.get(i, 'proof'), level_note=(CLAIM[i] + ' ' if CLAIM[i] else '') + NOTE))
    else:
        man['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
for l in P: jsonschema.validate(l, json.load(open('/root/.vp/PROPERTIES.schema.json')))
jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(P), 'properties', len(man['checks']), 'claimed')
