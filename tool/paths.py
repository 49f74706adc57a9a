#!/usr/bin/env python3
"""Development aid: prints the abstract paths of a function.  paths.py QUALIFIED [index] [--opaque a,b] [--throws]"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import prog
from absint import *
P = prog.load()
q = sys.argv[1]
opq = [a[9:].split(',') for a in sys.argv if a.startswith('--opaque=')]
fs = P.find(q)
print(len(fs), 'functions', [(f['file'], f['l'], [p['t'] for p in f['params']]) for f in fs])
idx = [int(a) for a in sys.argv[2:] if a.isdigit()]
dyn = [a[6:] for a in sys.argv if a.startswith('--dyn=')]
for f in ([fs[i] for i in idx] or fs):
    I = Interp(P, opaque=(lambda n: any(n == o or n.endswith('::' + o) or o[-1] == '*' and n.startswith(o[:-1]) for o in opq[0])) if opq else (), throws=(lambda e, fn: fn.startswith('umpire')) if '--throws' in sys.argv else None, noisy='--noisy' in sys.argv)
    print('=====', f['q'], f['l'])
    def show(ps, ind):
        ps = ps[:int(os.environ.get('MAXP','6'))]
        for p in ps:
            print(ind + f"-- {p.kind} {pp(p.val)}  IF {p.desc()}" + (f" LOCKS {[pp(x) for x in p.locks]}" if p.locks else ''))
            for e in p.trace:
                print(ind + '    ', e, 'locks=' + ','.join(pp(x) for x in e.locks) if e.locks else '')
                if e.kind == 'loop':
                    show(e.iters, ind + '        ')
    try:
        show(I.run(f, dyn=dyn[0] if dyn else None), '')
    except AnalysisError as x:
        print('ERROR', x)
    print('warn', I.warn)
