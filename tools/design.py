#!/usr/bin/env python3
"""Append the per-property section to DESIGN.md from the check modules."""
import importlib, os, sys, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
d = open(os.path.join(HERE, 'DESIGN.md')).read()
a, b = '<!-- properties -->', '<!-- /properties -->'
out = [a]
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    f = os.path.join(HERE, 'checks', p['id'] + '.py')
    out.append('### %s %s' % (p['id'], p['title']))
    if os.path.exists(f):
        C = importlib.import_module('checks.' + p['id'])
        out.append('%s\n\nEncoded from: `harness/%s`. Bounds: %s. Outside: %s. Obligations: %d quick, %d thorough; budget %s s / %s s.\n' % (
            (C.__doc__ or '').strip(), C.HARNESS, C.BOUNDS, C.OUTSIDE, len(C.jobs('quick')), len(C.jobs('thorough')), C.BUDGET['quick'], C.BUDGET['thorough']))
        if getattr(C, 'ASSUME', None):
            out.append('Extra assumptions: ' + '; '.join(C.ASSUME) + '.\n')
    else:
        out.append('Not claimed; see MANIFEST.json.\n')
out.append(b)
t = '\n'.join(out)
if a in d:
    d = d[:d.index(a)] + t + d[d.index(b) + len(b):]
else:
    d = d.rstrip() + '\n\n' + t + '\n'
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(d)
