#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decide one property on /repo's current source."""
import importlib
import os
import sys
import traceback

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from acvlint.core import run_property, AnalysisError  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        mod = importlib.import_module('acvlint.rules.' + prop.lower())
        extra = None
        if tier == 'thorough':
            from acvlint import adequacy
            extra = adequacy.extra(prop, mod, seed)
        return run_property(prop, mod.check, tier, seed, mod.__doc__.strip(), extra)
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % prop)
        return 2


if __name__ == '__main__':
    sys.exit(main())
