#!/usr/bin/env python3
"""Development aid: seedcheck.py [ids..] runs the rules of each planted change's property (--all: every property) on
/repo's sources with the change laid over them. No registered check uses this."""
import importlib
import json
import os
import re
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.setrecursionlimit(20000)
from acvlint.core import Env, Result, load_known  # noqa: E402


def overlay(patch):
    files = [l[6:].strip() for l in open(patch) if l.startswith('+++ b/')]
    out = {}
    with tempfile.TemporaryDirectory() as t:
        for f in files:
            os.makedirs(os.path.dirname(os.path.join(t, f)), exist_ok=True)
            with open(os.path.join(t, f), 'w') as g:
                g.write(open(os.path.join('/repo', f)).read())
        subprocess.check_call(['git', 'init', '-q', t])
        subprocess.check_call(['git', 'apply', os.path.abspath(patch)], cwd=t)
        for f in files:
            out[f] = open(os.path.join(t, f)).read()
    return out


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(here, 'seeded')))
    known = {(k['property'], k['rule'], k['construct']) for k in load_known()}
    for i in ids:
        d = os.path.join(here, 'seeded', i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        ov = overlay(os.path.join(d, 'patch.diff'))
        props = [meta['property']]
        if '--all' in sys.argv:
            props = sorted(f[:-3].upper() for f in os.listdir(os.path.join(here, 'acvlint', 'rules')) if re.match(r'c\d+\.py', f))
        env = Env(None, ov)
        for p in props:
            r = Result(p)
            try:
                importlib.import_module('acvlint.rules.' + p.lower()).check(env, r)
                bad = [o for o in r.bad() if (p, o[0], o[1]) not in known]
                if bad or p == meta['property']:
                    print(i, p, 'CAUGHT %s %s %s' % (bad[0][0], bad[0][1], bad[0][4][:120]) if bad else 'missed', flush=True)
            except Exception as e:
                print(i, p, 'ERROR', type(e).__name__, str(e)[:200], flush=True)


main()
