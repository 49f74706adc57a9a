#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property from the sources below /repo/src."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.dont_write_bytecode = True
import rulekit

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = 'thorough' if 'thorough' in sys.argv[2:] else 'quick'
    m = importlib.import_module(pid.lower())
    sys.exit(rulekit.main(pid, m.run, getattr(m, 'LEVEL', 'other'), m.TECHNIQUE, m.ASSUMPTIONS, tier))
