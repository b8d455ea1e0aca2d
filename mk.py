#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (development aid)"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []


def p(id, title, statement, over, quant, why, files, mech, claim=None, note=None, na=None, observe=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)), claim, note, na))


exec(open(os.path.join(V, 'properties.py')).read())
TECH = 'contract-based deductive verification of the compiled real code (VCs from LLVM IR, z3/cvc5), with bounded replay harnesses'
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, claim, note, nar in P:
        f.write(json.dumps(d) + '\n')
        if claim: checks.append(dict(property=d['id'], quick_cmd='./check.py ' + d['id'], thorough_cmd='VERIF_TIER=thorough ./check.py ' + d['id'], evidence_file='evidence/%s.json' % d['id'], technique=TECH if claim is True else claim, level='proof', level_note=note))
        else: na.append(dict(property=d['id'], reason=nar))
M = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na, notes='No hooks are needed: the checks verify /repo\'s current headers as they are. See DESIGN.md.')
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
