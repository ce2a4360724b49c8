#!/usr/bin/env python3
"""Demonstrates that the replayer is bound to the behaviours: alters one field
of behaviours the library agrees with and counts how many are then rejected."""
import copy, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
from props import *

c = vlib.Ctx('CORRUPT')
b = build('replay')
lines = c.run_jobs([sess('tape', 1, 150, ARITH + UN + RED, ReadMode='"all"', MaxOps=3, machines=TAPE, depth=80),
                    sess('sym', 2, 150, ['Add', 'HadamardProd', 'Square', 'Mul', 'Transpose'], GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID, machines=TAPE, MaxOps=3)])
lines = list(dict.fromkeys(lines))


def bump(v):
    """another term: one more"""
    return [v[0] + 1] if len(v) == 1 and isinstance(v[0], int) else ['add', v, [1], 3]


def value(step, key):
    for e in step.get(key, []):
        for i, v in enumerate(e['v']):
            if isinstance(v, list) and v and v[0] != 'undef':
                e['v'][i] = bump(v)
                return True


def change(tr, what):
    if what in ('reads', 'grads'):
        return any(value(st, what) for st in tr if st['a'] == 'run')
    for st in tr:
        if what == 'shape' and st['a'] == 'op' and st['sh']:
            st['sh'][0] += 1
            return True
        if what == 'dtype' and st['a'] == 'op':
            st['dt'] = {'f64': 'f32', 'f32': 'f64'}.get(st['dt'], 'f64')
            return True
        if what == 'input' and st['a'] == 'input':
            st['v'][0] += 1
            return True


for what in ('reads', 'grads', 'shape', 'dtype', 'input'):
    out = []
    for l in lines:
        tr = copy.deepcopy(json.loads(l))
        if change(tr, what):
            out.append(json.dumps(tr))
    p = c.scratch('t') + '/t.jsonl'
    open(p, 'w').write('\n'.join(out) + '\n')
    f, _ = c._shard(b, p, ['-max', '100000'], 0, 1, None, 10 ** 9)
    print('%-6s %4d behaviours altered, %4d rejected' % (what, len(out), len({i for i, _ in f})))
c.close()
