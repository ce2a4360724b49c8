#!/usr/bin/env python3
"""Development aid: find the shortest behaviour on which an excluded pattern
fails and store it as a probe.  mkprobe.py MODE NAME OPS SHAPES [kinds]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
from props import *
mode, name, ops, shapes = sys.argv[1:5]
want = sys.argv[5].split(',') if len(sys.argv) > 5 and sys.argv[5] else None
extra = dict(a.split('=') for a in sys.argv[6:])
c = vlib.Ctx('PROBE')
b = build('replay')
k = dict(MaxOps=1, MaxIn=2, MaxConst=0)
if mode == 'lisp':
    k.update(machines=LISPF, CheckVals='TRUE')
if mode == 'sym':
    k.update(GradMode='"sym"', WithCost='TRUE', Grads='TRUE', machines=TAPE)
if mode == 'auto':
    k.update(GradMode='"auto"', WithCost='TRUE', Grads='TRUE', machines=LISP)
if mode == 'tape':
    k.update(ReadMode='"all"', machines=TAPE)
k.update(extra)
lines = c.run_jobs([sess('p', i, 150, ops.split(','), shapes=shapes, avoid=[], **k) for i in range(4)])
lines = list(dict.fromkeys(lines))
p = c.scratch('t') + '/t.jsonl'
open(p, 'w').write('\n'.join(lines) + '\n')
f, _ = c._shard(b, p, ['-max', '100000'], 0, 1, None, 10 ** 9)
f = [(i, x) for i, x in f if not want or x['kind'] in want]
f.sort(key=lambda x: len(lines[x[0]]))
kinds = {}
for i, x in f:
    kinds.setdefault(x['kind'], []).append(x['detail'][:200])
print(len(lines), {k: (len(v), v[0]) for k, v in kinds.items()})
if f:
    open(os.path.join(vlib.V, 'probes', 'replay-%s.json' % name), 'w').write(lines[f[0][0]] + '\n')
c.close()
