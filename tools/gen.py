#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place to edit)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'include/colorsystem.hpp'
P = []


def p(id, title, statement, text, why, mech, over=('inputs',), observe=(), note='', na=None, files=(H,)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
    P[-1]['_note'] = note
    P[-1]['_na'] = na


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

TECH = 'symbolic execution of the LLVM IR of the real code; claims decided by z3 over all inputs in the stated bounds; counterexamples replayed natively'
open(os.path.join(HERE, 'properties.jsonl'), 'w').write(''.join(json.dumps({k: v for k, v in q.items() if k[0] != '_'}) + '\n' for q in P))
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[], notes='Every check is ./check.sh <id> <tier>; see DESIGN.md. No hooks are compiled into /repo.')
for q in P:
    if q['_na']:
        m['not_applicable'].append(dict(property=q['id'], reason=q['_na']))
    else:
        m['checks'].append(dict(property=q['id'], quick_cmd='./check.sh %s quick' % q['id'], thorough_cmd='./check.sh %s thorough' % q['id'],
                                technique=TECH, level='model_checking',
                                level_note='Bounded: holds for every input in the bounds named in the evidence, assuming libm within 2 ulp, round-to-nearest IEEE-754, and the IR executor/relaxation (validated against native runs on every check). ' + q['_note']))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
