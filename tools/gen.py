#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py (one source for both)."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from catalog import PROPS, NA_REASON  # noqa: E402

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks, na = [], []
for p in PROPS:
    i = p['id']
    if i in NA_REASON:
        na.append({'property': i, 'reason': NA_REASON[i]})
    elif os.path.exists(os.path.join(root, 'acvlint', 'rules', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3-vt run.py ' + i,
                       'thorough_cmd': 'python3-vt run.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': p['technique'], 'level': 'other',
                       'level_note': p['level_note']})
    else:
        na.append({'property': i, 'reason': 'No check registered (yet).'})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import Cython, networkx, numpy" && clang --version',
     'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: every check parses /repo\'s current sources (Python ast, the Cython compiler\'s '
              'parser, clang AST) and decides obligations on canonical forms; nothing of /repo is executed or built.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not applicable')
