#!/usr/bin/env python
"""check.py <property> [--replay FILE | --digest N]"""
import os
import sys

import warnings

if os.environ.get('PYTHONHASHSEED') != '0':
    # set iteration order is a source of nondeterminism: pin it
    # (the seed is varied on purpose by C10)
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim.runner import main  # noqa E402

sys.exit(main(sys.argv[1:]))
