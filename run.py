#!/usr/bin/env python3
"""run.py <PROPERTY> : decide one property on /repo's current source (static analysis only)."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
from hcsa.report import run_check  # noqa: E402


def main():
    prop = sys.argv[1]
    mod = importlib.import_module(f'hcsa.rules.{prop.lower()}')
    sys.exit(run_check(prop, mod.check, getattr(mod, 'LEVEL', 'other')))


if __name__ == '__main__':
    main()
