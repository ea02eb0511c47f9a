#!/usr/bin/env python3
"""check.py <property>: decide one property of the current source tree."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MODS = ['bodies', 'joints', 'world', 'engine', 'step', 'contacts', 'solver', 'lint', 'misc', 'observe', 'options', 'breakout', 'draw']


def main():
    pid = sys.argv[1]
    if '--thorough' in sys.argv:
        os.environ['VERIF_TIER'] = 'thorough'
    if pid == '--selftest':
        from sa.terms import sym, add, sub
        assert sub(add(sym('a'), sym('b')), sym('b')) == sym('a')
        return 0
    for m in MODS:
        try:
            mod = importlib.import_module('checks.' + m)
        except ModuleNotFoundError as e:
            if e.name != 'checks.' + m:
                raise
            continue
        if pid in mod.CHECKS:
            return mod.CHECKS[pid]()
    print('unknown property', pid)
    return 3


if __name__ == '__main__':
    sys.exit(main())
