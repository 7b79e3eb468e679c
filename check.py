#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decides one property of the library in $SHIVA_REPO (default /repo)."""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import core


def main():
    pid = sys.argv[1]
    mod = importlib.import_module('checks.' + pid.lower())

    def build(tier):
        # FULL: the whole enumeration is cheap enough for every change; deeper(): what the thorough run adds to it
        jobs = mod.build('thorough' if getattr(mod, 'FULL', False) else tier)
        if tier == 'thorough' and hasattr(mod, 'deeper'):
            jobs += mod.deeper()
        return jobs
    return core.main(pid, build, getattr(mod, 'LEVEL', 'other'), mod.EXPLANATION, mod.ASSUMPTIONS, mod.RULE, mod.MIN)


if __name__ == '__main__':
    sys.exit(main())
