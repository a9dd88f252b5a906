#!/usr/bin/env python3
"""
check.py PROPERTY            run the check (VERIF_SEED, VERIF_TIER)
check.py replay FILE         run one recorded case again
check.py selftest            does the simulator work, and is it repeatable?
"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import core  # noqa


def main():
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        return core.replay(sys.argv[2])
    if sys.argv[1:] == ['selftest']:
        from sim import selftest
        return selftest.main()
    if len(sys.argv) in (2, 3):
        tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) == 3:
            tier = sys.argv[2]
        return core.run(sys.argv[1], tier,
                        int(os.environ.get('VERIF_SEED', '1')))
    print(__doc__, file=sys.stderr)
    return 2


if __name__ == '__main__':
    sys.exit(main())
