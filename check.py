#!/usr/bin/env python3-vt
"""Entry point of the checks: check.py <property> [--case REGEX]"""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from dgv import harness          # noqa: E402
import registry                  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    drivers, cases, info = registry.get(prop, tier)
    if '--case' in sys.argv:
        rx = re.compile(sys.argv[sys.argv.index('--case') + 1])
        cases = [c for c in cases if rx.search(c.id)]
    return harness.run_property(prop, drivers, cases, tier, seed, checker_cmd='python3-vt /verif/check.py ' + prop, **info)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
