#!/usr/bin/env python3
"""check.py Cxx: decide one property (see DESIGN.md)."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.path.insert(0, os.path.join(ROOT, 'checks'))

import fesv  # noqa: E402

if __name__ == '__main__':
    prop = sys.argv[1]
    mod = importlib.import_module(prop.lower())
    sys.exit(fesv.main(mod.check, prop))
