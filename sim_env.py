#!/usr/bin/env python
"""one interpreter of a simulated environment: jobs on stdin, events on
stdout (see sim/envs.py)"""
import json
import os
import sys
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import envsetup  # noqa E402 (imports neither dcf nor its packages)

if __name__ == '__main__':
    todo = json.load(sys.stdin)
    out, sys.stdout = sys.stdout, sys.stderr
    envsetup.prepare(todo['env'])
    from sim import envs
    json.dump(envs.serve(todo), out)
    out.flush()
    os._exit(0)
