#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing it)"""
import json
import os
import re
import sys
import glob
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
import props
props.P.sort(key=lambda p: p['id'])

ids = set()
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['title']
        assert p['id'] not in ids
        ids.add(p['id'])
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
                            'quantifier': {'over': p.get('over', ['inputs']), 'text': ' '.join(p['forall'].split())},
                            'why_tests_cant': ' '.join(p['why'].split()),
                            'anchors': {'files': p['files'],
                                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                        'hook_needed': None}}) + '\n')
have = set()
for c in glob.glob(os.path.join(V, 'contracts', '*.cpp')):
    have |= set(' '.join(re.findall(r'^//\s*property:\s*(.*)$', open(c).read(), re.M)).split())
checks, na = [], []
for p in props.P:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': ' '.join(p['na'].split())})
        continue
    if p['id'] not in have:
        na.append({'property': p['id'], 'reason': 'no contract written for it yet'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
                   'thorough_cmd': './check %s --tier thorough' % p['id'],
                   'technique': 'contract-based deductive verification of the real code: postconditions of harness/callee '
                                'contracts, VCs generated from the LLVM IR of /repo\'s current sources, discharged by z3/cvc5',
                   'level': 'proof', 'level_note': ' '.join(p['note'].split())})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: contracts are attached from /verif/contracts. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(props.P), 'properties,', len(checks), 'claimed,', len(na), 'not applicable')
# DESIGN.md
out = [open(os.path.join(H, 'design_head.md')).read()]
for p in props.P:
    if p.get('na'):
        continue
    src = [os.path.basename(c) for c in sorted(glob.glob(os.path.join(V, 'contracts', '*.cpp')))
           if p['id'] in ' '.join(re.findall(r'^//\s*property:\s*(.*)$', open(c).read(), re.M)).split()]
    out.append('### %s %s\n\n%s\n\n*For all:* %s.  *Beyond tests:* %s\n\n*Decided by:* proofs in %s over %s.  %s%s\n' % (
        p['id'], p['title'], ' '.join(p['statement'].split()), ' '.join(p['forall'].split()), ' '.join(p['why'].split()),
        ', '.join('`contracts/%s`' % s for s in src), '; '.join('%s (`%s`)' % m for m in p['mech']),
        ' '.join(p['note'].split()), '  ' + ' '.join(p['design'].split()) if p.get('design') else ''))
out.append('## 3. Not applicable\n')
for n in na:
    q = [p for p in props.P if p['id'] == n['property']][0]
    out.append('* **%s** %s: %s' % (n['property'], q['title'], n['reason']))
out.append(open(os.path.join(H, 'design_tail.md')).read())
t = os.path.join(H, 'design_bugs.md')
if os.path.exists(t):
    out.append(open(t).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
