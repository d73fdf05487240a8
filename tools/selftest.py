#!/usr/bin/env python3
"""Validates the standard-library models: every program of selftest/src/gen.rs (all of which
pass when run natively) has to finish without a panic in the abstract interpreter.
usage: selftest.py [mem] [--noextract] [PATTERN]"""
import collections
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from vf.build import Workspace
from vf.interp import *
from vf.natives import NAT
from vf.mem import MemInterp
os.environ['VF_KEEP'] = '/tmp/vfself'
a = sys.argv[1:]
mem = 'mem' in a
with Workspace() as W:
    if '--noextract' in a:
        F = Facts('/tmp/vfself/self.json')
    else:
        F = W.facts('self', 'selftest')
pat = [x for x in a if x.startswith('root')]
msgs = collections.OrderedDict()
good = bad = 0
for r in F.roots:
    if pat and not any(r == p or r.startswith(p + '_') for p in pat):
        continue
    I = (MemInterp(F) if mem else Interp(F, dict(NAT)))
    try:
        if mem:
            gen = I.explore(r)
        else:
            st = State()
            I.push(st, F.roots[r], [])
            gen = I.run(st)
        res = [(s, str(getattr(i, 'msg', i))[:150]) for s, st, i in gen]
        if res and all(s == 'done' for s, i in res):
            good += 1
            continue
        m = str([x for x in res if x[0] != 'done'][:1])
    except Unmodelled as u:
        m = 'UNMODELLED ' + str(u)[:500]
        if len(getattr(u, 'stack', [])) > 1:
            m += '   @ ' + u.stack[-1][:150]
    bad += 1
    msgs.setdefault(m, []).append(r)
for m, rs in sorted(msgs.items(), key=lambda x: -len(x[1])):
    print(len(rs), rs[0], m)
print('good', good, 'bad', bad)
