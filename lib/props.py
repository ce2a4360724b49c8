"""What each property's check explores."""
import json
import random

from vlib import *

S_SMALL = '<<<<>>, <<2>>, <<3>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<1, 3>>, <<3, 1>>, <<2, 1, 2>>, <<2, 2, 2>>>>'
S_ONE = '<<<<>>, <<1>>, <<1, 1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 1, 2>>, <<2, 2>>>>'
S_NN = '<<<<1,1,3,3>>, <<1,2,3,3>>, <<2,1,2,2>>, <<1,1,2,2>>, <<2,2,2,2>>, <<1,1,4,3>>, <<2,1,1,2>>>>'
S_BIG = '<<<<>>, <<5>>, <<4, 5>>, <<5, 4>>, <<4, 4>>, <<2, 3, 4>>, <<3, 2, 2, 2>>>>'

UN = 'Abs Sign Ceil Floor Sin Cos Exp Log Log2 Neg Square Sqrt Inverse InverseSqrt Cube Tanh Sigmoid Log1p Expm1 Softplus'.split()
ACT = 'Rectify LeakyRelu Mish'.split()
ARITH = 'Add Sub HadamardProd HadamardDiv Pow'.split()
BETWEEN = 'MinBetween MaxBetween'.split()
CMP = 'Lt Gt Lte Gte Eq Ne'.split()
RED = 'Sum Max Mean Norm'.split()
SHAPE = 'Transpose Reshape Ravel Slice At SizeOf'.split()
LIN = 'Mul OuterProd BatchedMatMul Tensordot Concat'.split()
SOFT = 'SoftMax LogSoftMax'.split()
NN = 'Conv2d MaxPool2D Upsample2D GlobalAveragePool2D'.split()
BARITH = 'BroadcastAdd BroadcastSub BroadcastHadamardProd BroadcastHadamardDiv BroadcastPow'.split()
BCMP = 'BroadcastLt BroadcastGt BroadcastLte BroadcastGte BroadcastEq BroadcastNe'.split()
CAT3 = 'Concat3 ReduceAdd ReduceMul'.split()
MORE = 'Div XentSigmoid DiagFlat Unconcat KeepDimsSum KeepDimsMean LogSumExp Sparsemax ByIndices ConvRT'.split()
AUTOB = 'AutoAdd AutoSub AutoHadamardProd AutoHadamardDiv'.split()
NN += 'AveragePool2D AveragePool1D MaxPool1D Conv1d Im2Col GroupNorm'.split()
NODIFF = set(['DiagFlat', 'ConvRT'] + CMP + BCMP + ['Sign', 'Ceil', 'Floor', 'At', 'SizeOf', 'GlobalAveragePool2D'])
# operators without (correct) automatic derivative: known findings of P04
NOAUTO = set(BETWEEN + ['Max', 'LogSumExp', 'Upsample2D'])

ALL = UN + ACT + ARITH * 3 + BETWEEN + CMP + RED * 2 + SHAPE * 2 + LIN * 2 + SOFT + BARITH + BCMP[:2] + CAT3 + MORE + AUTOB
FWD_AVOID = ['log-softmax', 'scalar-between', 'rank4']
AUTO_AVOID = ['rewrites', 'log-softmax', 'scalar-between', 'rank4', 'tensordot-whole', 'byindices-repeat', 'sparsemax-rank3']
SYM_AVOID = ['log-softmax', 'scalar-between', 'rank4', 'tensordot-whole', 'byindices-repeat', 'sparsemax-rank3']


def tseq(xs):
    return '<<' + ', '.join('"%s"' % x for x in xs) + '>>'


def tset(xs):
    return '{' + ', '.join('"%s"' % x for x in xs) + '}'


def tbag(xs):
    return '<<' + ', '.join('"%s"' % x for x in xs) + '>>'


TAPE = '<<<<"tape", <<>>>>>>'
TAPES = '<<<<"tape", <<>>>>, <<"tape", <<"trace">>>>, <<"tape", <<"bind">>>>>>'
XVM = '<<<<"xvm", <<>>>>>>'
RACE = dict(GOMAXPROCS='4', GORACE='halt_on_error=1 exitcode=66')
LISPF = '<<<<"lisp", <<"fwd">>>>>>'
LISP = '<<<<"lisp", <<>>>>>>'


def sess(name, seed, num, bag, shapes=S_SMALL, machines=TAPES, avoid=FWD_AVOID, dts='{"f64", "f32"}', depth=120, bad=(), **k):
    c = dict(Random='TRUE', Grads='FALSE', MaxIn=3, MaxConst=1, MaxOps=5, MaxTries=30, GradMode='"none"', WithCost='FALSE',
             ReadMode='"some"', CheckVals='FALSE', CheckInputs='TRUE', MaxRuns=1)
    c.update(k)
    return dict(name=name, module='Sess', consts=c,
                defs=dict(OpBag=tbag(bag), ShapeBag=shapes, Dtypes=dts, Machines=machines, Avoid=tset(avoid), BadBag=tbag(bad)),
                sim=(num, depth, seed))


S_SWEEP = '{<<>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<1, 3>>, <<3, 1>>, <<2, 1, 2>>, <<2, 3, 2>>}'


def sweep(name, ops, shapes=S_SWEEP, machines=TAPE, avoid=FWD_AVOID, dts='{"f64", "f32"}', ctxs=('plain', 'mid', 'keep', 'same', 'const'), **k):
    """every application of the operators within the bounds"""
    c = dict(Random='FALSE', Grads='FALSE', MaxIn=9, MaxConst=9, MaxOps=9, MaxTries=0, GradMode='"none"', WithCost='FALSE',
             ReadMode='"all"', CheckVals='FALSE', CheckInputs='TRUE', MaxRuns=2)
    c.update(k)
    return dict(name='sweep-' + name, module='Sweep', initnext=('SInit', 'SNext'), consts=c,
                defs=dict(OpBag='<<>>', ShapeBag='<<>>', Dtypes=dts, Machines=machines, Avoid=tset(avoid), BadBag='<<>>',
                          SweepOps=tset(ops), SweepShapes=shapes, Ctxs=tset(ctxs)), expect_lines=False)


# the operators in groups of similar cost
GROUPS = [UN + ACT, ARITH + BETWEEN + ['Div', 'XentSigmoid'], CMP, RED + ['KeepDimsSum', 'KeepDimsMean'],
          ['Reshape', 'Ravel', 'Transpose', 'Unconcat', 'ByIndices', 'ConvRT', 'DiagFlat'], ['Slice', 'At', 'SizeOf', 'Mul', 'OuterProd'],
          ['BatchedMatMul', 'Tensordot'], ['Concat'] + CAT3, SOFT + ['LogSumExp', 'Sparsemax']]
BGROUPS = [BARITH[:2], BARITH[2:], BCMP[:3], BCMP[3:], AUTOB]
S_SWBC = '{<<2>>, <<3>>, <<2, 3>>, <<1, 3>>, <<2, 1>>, <<1, 1>>, <<2, 1, 3>>, <<2, 2, 3>>, <<1, 2, 3>>, <<2, 1, 1>>, <<1, 1, 3>>}'
S_SWNN = '{<<1,1,3,3>>, <<1,2,3,3>>, <<2,1,2,2>>, <<2,2,2,2>>, <<1,1,4,3>>, <<2,1,1,2>>, <<1,2,1,1>>, <<1,1,1,1>>}'
S_SWCONV = '{<<1,2,3,3>>, <<2,1,3,2>>, <<1,2,2,2>>, <<2,1,2,1>>, <<2,2,1,2>>}'
S_SWCOL = ['{<<1,2,3,3>>}', '{<<2,1,2,4>>}']


def sweeps(groups, skip=(), **k):
    r = []
    for g in groups:
        h = [x for x in g if x not in skip]
        if h:
            r.append(sweep(h[0], h, **k))
    return r


def nnsweeps(skip=(), **k):
    k['ctxs'] = [x for x in k.get('ctxs', ('plain', 'mid')) if x in ('plain', 'mid')]
    r = sweeps([['Conv2d']], skip, **dict(k, shapes=S_SWCONV, ctxs=('plain',), MaxRuns=1))
    for sh in S_SWCOL:
        for ctx in k['ctxs']:
            r += sweeps([['Im2Col']], skip, **dict(k, shapes=sh, ctxs=(ctx,)))
    r += sweeps([['MaxPool2D'], ['Conv1d', 'Upsample2D', 'GlobalAveragePool2D', 'GroupNorm'], ['AveragePool2D', 'AveragePool1D', 'MaxPool1D']],
                skip, **dict(k, shapes=S_SWNN))
    return r


GR = dict(WithCost='TRUE', Grads='TRUE', ReadMode='"none"', MaxRuns=1, ctxs=('plain', 'mid', 'keep', 'same'))
K_TAPE = dict()
K_LISP = dict(machines=LISPF, CheckVals='TRUE')
K_SYM = dict(GR, GradMode='"sym"', machines=TAPE, avoid=SYM_AVOID)
K_AUTO = dict(dict(GR, MaxRuns=2), GradMode='"auto"', machines=LISP, avoid=AUTO_AVOID)


S_SWBC4 = '{<<2, 1, 1, 2>>, <<1, 2, 1, 1>>, <<2, 2, 1, 2>>, <<1, 1, 2, 1>>}'
S_SW4 = '{<<2, 3, 2, 2>>, <<1, 2, 1, 1>>, <<2, 2, 3, 1>>}'
S_SWLONG = '{<<4>>, <<5>>, <<4, 2>>, <<2, 4>>}'


def named(prefix, jobs):
    for j in jobs:
        j['name'] = prefix + j['name']
    return jobs


def moresweeps(skip=(), **k):
    """tensors of rank four, and axes long enough for steps"""
    return (named('rank4-', sweeps([['BroadcastAdd', 'BroadcastHadamardDiv', 'AutoSub']], skip, shapes=S_SWBC4, **k)
                  + sweeps([RED + ['KeepDimsSum', 'KeepDimsMean', 'LogSumExp', 'SoftMax', 'LogSoftMax'], ['Concat', 'Reshape', 'Transpose', 'Ravel', 'Unconcat']], skip, shapes=S_SW4,
                           **dict(k, ctxs=[x for x in k.get('ctxs', ('plain', 'keep')) if x in ('plain', 'keep')])))
            + named('long-', sweeps([['Slice']], skip, shapes=S_SWLONG, **dict(k, ctxs=('plain',)))))


def allsweeps(k, skip=()):
    return nnsweeps(skip, **k) + sweeps(BGROUPS, skip, shapes=S_SWBC, **k) + sweeps(GROUPS, skip, **k) + moresweeps(skip, **k)


GENERAL = ('build', 'run', 'panic', 'hang', 'crash')


INTS = ['Add', 'Sub', 'HadamardProd'] * 3 + CMP + ['Reshape', 'Transpose', 'Slice', 'Concat', 'At', 'Sum', 'Ravel', 'Max', 'ReduceAdd', 'ByIndices', 'Unconcat', 'Concat3']


def ints(name, seed, num, **k):
    """sessions over integer graphs"""
    return sess(name, seed, num, INTS, dts='{"int", "i64", "i32"}', avoid=FWD_AVOID + ['scalar-mix'], **k)


# expressions the library may rewrite when they are built, and their neighbours
STABLE = ['Sub', 'Add', 'Neg', 'Log', 'Log1p', 'Exp', 'Sigmoid'] * 2 + ['Expm1', 'Softplus', 'HadamardProd', 'SoftMax']
S_STABLE = '<<<<>>, <<2>>, <<2>>, <<2, 2>>>>'


def stab(name, seed, num, **k):
    """sessions over the expressions that are rewritten when they are built"""
    return sess(name, seed, num, STABLE, shapes=S_STABLE, **dict(dict(MaxIn=2, MaxConst=2, MaxOps=8, MaxTries=40), **k))


def p01(c):
    b = build('replay')
    q = 4 if c.thorough else 1
    jobs = allsweeps(K_TAPE, ())
    for k in range(8):
        s = c.seed * 1000 + k
        jobs.append(sess('mix%d' % k, s, 500 * q, ALL, MaxOps=4 + k % 4 * 2, ReadMode=['"some"', '"all"'][k % 2]))
    jobs.append(sess('one', c.seed, 300 * q, ALL, shapes=S_ONE, MaxOps=5))
    jobs.append(sess('big', c.seed, 200 * q, ALL, shapes=S_BIG, MaxOps=5))
    jobs.append(sess('long', c.seed, 150 * q, ALL, MaxOps=16, MaxTries=60, MaxIn=4, depth=200))
    jobs.append(sess('arith', c.seed, 500 * q, ARITH * 2 + UN + ['Sum', 'Mul'], MaxOps=10, MaxIn=2, MaxTries=40))
    jobs.append(ints('ints', c.seed, 500 * q, MaxOps=6))
    jobs.append(ints('iscalars', c.seed, 300 * q, MaxOps=6, shapes='<<<<>>>>'))
    jobs.append(stab('stable', c.seed, 600 * q))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GENERAL + ('value', 'value-shape', 'value-dtype'), 'compiled execution')
    c.replay(b, lines, GENERAL + ('value', 'value-shape', 'value-dtype'), 'compiled execution without rewriting', args=['-stable=false'])
    c.probes(dict(replay=b))


def p02(c):
    b = build('replay')
    q = 4 if c.thorough else 1
    jobs = allsweeps(K_LISP, ())
    for k in range(8):
        s = c.seed * 1000 + 100 + k
        jobs.append(sess('mix%d' % k, s, 400 * q, ALL, machines=LISPF, CheckVals='TRUE', MaxOps=4 + k % 4 * 2, ReadMode=['"some"', '"none"'][k % 2],
                         MaxRuns=1 + k % 3))
    jobs.append(ints('iscalars', c.seed, 300 * q, MaxOps=7, shapes='<<<<>>>>', machines=LISPF, CheckVals='TRUE', MaxRuns=2))
    jobs.append(ints('ints', c.seed, 500 * q, MaxOps=6, machines=LISPF, CheckVals='TRUE', MaxRuns=2))
    jobs.append(stab('stable', c.seed, 500 * q, machines=LISPF, CheckVals='TRUE'))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GENERAL + ('value', 'value-shape', 'value-dtype', 'let'), 'interpreting execution')
    c.replay(b, lines, GENERAL + ('value', 'value-shape', 'value-dtype', 'let'), 'interpreting execution without rewriting', args=['-stable=false'])
    c.probes(dict(replay=b))


GRADK = ('grad', 'grad-shape', 'grad-dtype', 'grad-build', 'grad-static')


def grads(name, seed, num, bag, **k):
    """sessions with several requests for gradients"""
    k = dict(dict(Grads='TRUE', GradMode='"many"', avoid=SYM_AVOID, MaxOps=5, MaxReqs=3, CheckInputs='FALSE', MaxRuns=2), **k)
    j = sess(name, seed, num, bag, **k)
    j.update(module='Grads', initnext=('GInit', 'GNext'))
    return j


CURV = ['Add', 'Sub', 'HadamardProd', 'HadamardProd', 'HadamardDiv', 'Mul', 'Mul', 'Square', 'Square', 'Cube', 'Tanh', 'Sigmoid', 'Sin', 'Cos', 'Exp', 'Log',
        'Sqrt', 'Inverse', 'Expm1', 'Log1p', 'Softplus', 'Neg', 'Slice', 'Slice', 'Transpose', 'Reshape', 'Concat', 'Sum', 'Sum',
        'Mean', 'Norm', 'Pow', 'Log2', 'InverseSqrt', 'Mish', 'BroadcastAdd', 'BroadcastSub', 'BroadcastHadamardProd', 'BroadcastHadamardDiv', 'OuterProd',
        'KeepDimsSum', 'KeepDimsMean', 'BatchedMatMul', 'Tensordot', 'Ravel', 'Concat3', 'ReduceAdd', 'Unconcat']


def curv(name, seed, num, **k):
    """gradients of gradients"""
    j = grads(name, seed, num, CURV, **dict(dict(shapes='<<<<>>, <<2>>, <<3>>, <<2, 2>>, <<2, 3>>, <<1, 2>>, <<2, 1>>, <<2, 2, 2>>>>', dts='{"f64"}', MaxOps=3, MaxIn=2, MaxReqs=2), **k))
    j.update(module='Curv', initnext=('GInit', 'CNext'), over=dict(V='VarV', Answer='CAnswer'))
    return j


def p03(c):
    b = build('replay')
    q = 4 if c.thorough else 1
    bag = [x for x in ALL if x not in NODIFF]
    jobs = allsweeps(K_SYM, NODIFF)
    for k in range(8):
        s = c.seed * 1000 + 200 + k
        jobs.append(sess('mix%d' % k, s, 300 * q, bag, GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID, MaxOps=2 + k % 4,
                         machines=TAPES, ReadMode=['"none"', '"some"'][k % 2]))
    for k in range(4):
        jobs.append(grads('many%d' % k, c.seed * 1000 + 250 + k, 300 * q, bag + ['Sum'] * 4, MaxOps=2 + k * 2, machines=[TAPES, LISPF][k // 3]))
    for k in range(4):
        jobs.append(curv('second%d' % k, c.seed * 1000 + 270 + k, 200 * q, MaxOps=2 + k, machines=[TAPES, LISPF][k // 3]))
    jobs.append(grads('whole', c.seed * 1000 + 260, 200 * q, INTS, dts='{"int", "i64", "i32"}', avoid=FWD_AVOID + ['scalar-mix'], MaxOps=5))
    jobs.append(stab('stable', c.seed, 500 * q, GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID, MaxOps=5))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GENERAL + GRADK, 'symbolic gradients')
    c.replay(b, lines, GENERAL + GRADK, 'symbolic gradients without rewriting', args=['-stable=false'])
    c.probes(dict(replay=b))


def p04(c):
    b = build('replay')
    q = 4 if c.thorough else 1
    bag = [x for x in ALL if x not in NODIFF and x not in NOAUTO]
    jobs = allsweeps(K_AUTO, NODIFF | NOAUTO)
    for k in range(8):
        s = c.seed * 1000 + 300 + k
        jobs.append(sess('mix%d' % k, s, 300 * q, bag, GradMode='"auto"', WithCost='TRUE', Grads='TRUE', avoid=AUTO_AVOID, MaxOps=2 + k % 4, MaxRuns=1 + k % 3,
                         machines=LISP, ReadMode=['"none"', '"some"'][k % 2],
                         shapes=[S_SMALL, S_SMALL, S_ONE, S_BC][k % 4]))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GENERAL + GRADK, 'automatic gradients')
    # nothing is rewritten, so the expressions that would be need not be left out
    more = c.run_jobs([stab('stable', c.seed, 500 * q, GradMode='"auto"', WithCost='TRUE', Grads='TRUE', MaxOps=5, MaxRuns=2, machines=LISP,
                            avoid=[x for x in AUTO_AVOID if x != 'rewrites'])])
    c.replay(b, lines + more, GENERAL + GRADK, 'automatic gradients without rewriting', args=['-stable=false'])
    c.probes(dict(replay=b))


BAD = ARITH + CMP[:3] + ['Mul', 'BatchedMatMul', 'Reshape', 'Transpose', 'Sum', 'Max', 'Slice', 'Concat', 'SoftMax']


def p05(c):
    b = build('replay')
    q = 4 if c.thorough else 1
    jobs = allsweeps(K_TAPE, ())
    for k in range(8):
        s = c.seed * 1000 + 400 + k
        jobs.append(sess('mix%d' % k, s, 400 * q, ALL, bad=BAD, machines=[TAPES, LISPF][k % 2], CheckVals=['FALSE', 'TRUE'][k % 2], MaxOps=4 + k % 4 * 2, ReadMode='"all"'))
    jobs.append(ints('ints', c.seed, 400 * q, MaxOps=6, ReadMode='"all"'))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GENERAL + ('shape', 'dtype', 'value-shape', 'value-dtype', 'accept', 'residue'), 'static types')
    c.probes(dict(replay=b))


DIFF = [x for x in ALL if x not in NODIFF]
ADIFF = [x for x in DIFF if x not in NOAUTO]
VALUES = ('value', 'value-shape', 'value-dtype')


def p06(c):
    b = build('replay')
    q = 4 if c.thorough else 1
    jobs = []
    for k, skip in ((dict(K_TAPE, MaxRuns=2), ()), (dict(K_SYM, MaxRuns=2), NODIFF)):
        jobs += allsweeps(k, skip) if c.thorough else nnsweeps(skip, **k) + sweeps(GROUPS, skip, **k)
    for k in range(3):
        s = c.seed * 1000 + 500 + k
        jobs.append(sess('auto%d' % k, s, 300 * q, ADIFF, GradMode='"auto"', WithCost='TRUE', Grads='TRUE', avoid=AUTO_AVOID, MaxOps=2 + k, MaxRuns=3, machines=LISP))
        jobs.append(sess('tape%d' % k, s, 350 * q, ALL, MaxOps=4 + k * 3, MaxRuns=4, depth=160))
        jobs.append(sess('grad%d' % k, s, 300 * q, DIFF, GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID, MaxOps=2 + k, MaxRuns=3,
                         machines='<<<<"tape", <<>>>>, <<"tape", <<"trace">>>>>>'))
        jobs.append(sess('lisp%d' % k, s, 300 * q, ALL, machines=LISPF, CheckVals='TRUE', MaxOps=4 + k * 2, MaxRuns=4, depth=160))
    jobs.append(ints('ints', c.seed, 300 * q, MaxOps=6, MaxRuns=4, depth=160))
    for j in jobs:
        if j['module'] == 'Sess':
            j['over'] = dict(ResetHows='EveryHow')
    # another kind of machine takes over between runs
    for k in range(2):
        s = c.seed * 1000 + 530 + k
        over = []
        over.append(('AutoHow', sess('toauto%d' % k, s, 300 * q, ADIFF, GradMode='"auto"', WithCost='TRUE', Grads='TRUE', avoid=AUTO_AVOID, MaxOps=2 + k * 2, MaxRuns=4, MaxConst=0,
                                     machines=['<<<<"tape", <<>>>>>>', LISP][k], depth=160)))
        over.append(('SymHow', sess('tosym%d' % k, s, 300 * q, DIFF, GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID, MaxOps=2 + k * 2, MaxRuns=4,
                                    machines=[LISPF, TAPES][k], depth=160)))
        over.append(('SymHow', sess('to%d' % k, s, 300 * q, ALL, MaxOps=4 + k * 4, MaxRuns=4, machines=[LISPF, TAPES][k], depth=160)))
        for how, j in over:
            j['over'] = dict(ResetHows=how)
            jobs.append(j)
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GENERAL + VALUES + GRADK + ('let',), 'repeated runs')
    c.probes(dict(replay=b))


def p07(c):
    b = build('replay')
    q = 4 if c.thorough else 1
    jobs = []
    arith = ARITH * 2 + UN + ['Sum', 'Mul', 'Reshape', 'Transpose', 'Slice', 'SoftMax', 'Concat']
    for k in range(3):
        s = c.seed * 1000 + 600 + k
        jobs.append(sess('tape%d' % k, s, 400 * q, ALL, MaxOps=4 + k * 3, MaxRuns=2))
        jobs.append(sess('arith%d' % k, s, 400 * q, arith, MaxOps=6 + k * 3, MaxRuns=2, MaxIn=2, ReadMode='"none"'))
        jobs.append(sess('grad%d' % k, s, 250 * q, DIFF, GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID, MaxOps=2 + k))
        jobs.append(sess('auto%d' % k, s, 250 * q, ADIFF, GradMode='"auto"', WithCost='TRUE', Grads='TRUE', avoid=AUTO_AVOID, MaxOps=2 + k, machines=LISP))
        jobs.append(sess('lisp%d' % k, s, 300 * q, ALL, machines=LISPF, MaxOps=4 + k * 2, MaxRuns=2))
    jobs.append(ints('ints', c.seed, 300 * q, MaxOps=6, MaxRuns=2))
    for j in jobs:
        j['over'] = dict(ResetHows='EveryHow')
    lines = c.run_jobs(jobs)
    c.replay(b, lines, ('input',), 'inputs and constants')
    c.probes(dict(replay=b))


S_BC = '<<<<2>>, <<3>>, <<1>>, <<2, 3>>, <<1, 3>>, <<2, 1>>, <<3, 1>>, <<1, 1>>, <<2, 1, 3>>, <<2, 2, 3>>, <<1, 2, 3>>, <<2, 1, 1>>, <<1, 1, 3>>>>'


def ident(name, group, operands, **k):
    c = dict(Random='FALSE', Grads='FALSE', MaxIn=9, MaxConst=9, MaxOps=9, MaxTries=0, GradMode='"none"', WithCost='FALSE',
             ReadMode='"all"', CheckVals='FALSE', CheckInputs='TRUE', MaxRuns=1, Chunk=30, WithConsts='FALSE')
    d = dict(OpBag='<<>>', ShapeBag='<<>>', Dtypes='{"f64", "f32"}', Machines=TAPE, Avoid=tset(FWD_AVOID), BadBag='<<>>',
             SweepOps='{}', SweepShapes='{}', Ctxs='{}', OperandShapes=operands, Groups='{' + tset(group) + '}')
    for x in k:
        (d if x in d else c)[x] = k[x]
    return dict(name='ident-' + name, module='Ident', initnext=('SInit', 'INext'), consts=c, defs=d, expect_lines=False, invariants=('OneValue',))


S_OPERANDS = '{<<<<2>>, <<2>>>>, <<<<2, 2>>, <<2, 2>>>>, <<<<2, 3>>, <<2, 3>>>>, <<<<>>, <<2, 2>>>>, <<<<2, 3, 2>>>>, <<<<2, 2, 2>>, <<2, 2, 2>>>>, <<<<>>, <<>>>>}'
S_OPBC = '{<<<<2, 3>>, <<1, 3>>>>, <<<<2, 1>>, <<1, 3>>>>, <<<<2, 2>>, <<2, 2>>>>, <<<<1, 2, 3>>, <<2, 2, 3>>>>}'
S_OPNN = '{<<<<1, 2, 3, 3>>, <<1, 2, 3, 3>>>>, <<<<2, 2, 2, 2>>>>, <<<<1, 1, 4, 3>>, <<1, 1, 2, 2>>>>}'


def p08(c):
    b = build('replay')
    q = 4 if c.thorough else 1
    jobs = []
    un = UN + ACT + SOFT + ['Sparsemax', 'LogSumExp', 'ConvRT', 'DiagFlat', 'Ravel']
    groups = [un, ARITH + BETWEEN + CMP + ['Div', 'XentSigmoid', 'Mul'], RED + ['KeepDimsSum', 'KeepDimsMean', 'LogSumExp'],
              ['Reshape', 'Ravel', 'Transpose', 'Unconcat', 'ByIndices'], ['Slice', 'At', 'SizeOf'], LIN + CAT3]
    for k, g in enumerate(groups):
        jobs.append(ident('grp%d' % k, g, S_OPERANDS, Chunk=[30, 40, 30, 30, 40, 40][k]))
    jobs.append(ident('lisp', groups[0] + groups[2], S_OPERANDS, Machines=LISPF, CheckVals='TRUE'))
    for k, g in enumerate([BARITH + AUTOB, BCMP]):
        jobs.append(ident('bc%d' % k, g, S_OPBC))
    for k, g in enumerate([['Conv2d', 'Conv1d', 'Im2Col'], ['MaxPool2D', 'AveragePool2D', 'MaxPool1D', 'AveragePool1D', 'Upsample2D', 'GlobalAveragePool2D', 'GroupNorm']]):
        jobs.append(ident('nn%d' % k, g, S_OPNN))
    gr = dict(WithCost='TRUE', Grads='TRUE', ReadMode='"none"', GradMode='"sym"', Avoid=tset(SYM_AVOID), Chunk=5, Dtypes='{"f64"}' if not c.thorough else '{"f64", "f32"}')
    jobs.append(ident('slices', ['Slice', 'ByIndices', 'Unconcat'], '{<<<<4>>, <<4>>>>, <<<<4, 2>>, <<4, 2>>>>}'))
    small = '{<<<<2>>, <<2>>>>, <<<<2, 2>>, <<2, 2>>>>, <<<<2, 1, 2>>>>}'
    for k, g in enumerate(groups):
        jobs.append(ident('grad%d' % k, [x for x in g if x not in NODIFF], small, **gr))
    jobs.append(ident('gradbc', BARITH + AUTOB, '{<<<<2, 1>>, <<1, 2>>>>}', **gr))
    jobs.append(ident('gradconv', ['Conv2d', 'Conv1d'], '{<<<<1, 1, 4, 3>>, <<1, 1, 2, 2>>>>}', **dict(gr, Chunk=6)))
    jobs.append(ident('gradnn', ['MaxPool2D', 'AveragePool2D', 'MaxPool1D', 'AveragePool1D', 'Upsample2D', 'GroupNorm'], '{<<<<1, 2, 2, 2>>>>}', **gr))
    cons = ident('const', [], '{}', WithConsts='TRUE', SweepShapes='{<<>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1, 2>>, <<40>>, <<15, 14>>}')
    jobs.append(cons)
    for k in range(6):
        s = c.seed * 1000 + 800 + k
        mix = [un + ARITH * 3, SHAPE + RED + MORE, ARITH * 4 + CMP + LIN, ALL, BARITH * 3 + AUTOB + ARITH, UN + ARITH * 6][k]
        jobs.append(sess('rnd%d' % k, s, 200 * q, mix, MaxOps=12, MaxIn=2, MaxConst=1, MaxTries=60, ReadMode='"all"', depth=200,
                         shapes=S_BC if k == 4 else S_SMALL))
    # gradients of different views of one tensor differ by little
    for k in range(2):
        jobs.append(sess('views%d' % k, c.seed * 1000 + 870 + k, 300 * q, ['Slice'] * 4 + ['Sum'] * 2 + ['Add', 'Transpose', 'Reshape', 'ByIndices', 'Unconcat', 'Concat', 'Max', 'KeepDimsSum'][:8 - k * 3],
                         shapes=['<<<<2, 2>>, <<3, 3>>, <<2, 2, 2>>>>', '<<<<2, 2>>>>'][k], GradMode='"sym"', WithCost='TRUE', Grads='TRUE',
                         avoid=SYM_AVOID, MaxIn=1, MaxConst=0, MaxOps=5, MaxTries=40))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GENERAL + VALUES + GRADK + ('shape', 'dtype', 'ident'), 'shared nodes')
    again = lines
    jobs = []
    for k in range(2):
        s = c.seed * 1000 + 850 + k
        kw = dict(shapes=['<<<<>>, <<2, 2>>>>', '<<<<2>>>>'][k], MaxIn=4, MaxConst=1, MaxTries=40)
        mix = ARITH * 2 + ['Square', 'Tanh', 'Neg', 'Cube', 'Sum', 'Mul', 'Slice', 'Transpose', 'Concat']
        jobs.append(sess('tape%d' % k, s, 200 * q, mix, MaxOps=6, ReadMode='"all"', **kw))
        jobs.append(sess('lisp%d' % k, s, 200 * q, mix, MaxOps=6, machines=LISPF, CheckVals='TRUE', **kw))
        jobs.append(sess('sym%d' % k, s, 200 * q, mix, MaxOps=4, GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID, **kw))
        jobs.append(sess('auto%d' % k, s, 200 * q, mix, MaxOps=4, GradMode='"auto"', WithCost='TRUE', Grads='TRUE', avoid=AUTO_AVOID, machines=LISP, **kw))
    lines = c.run_jobs(jobs) + again
    c.replay(b, lines, GENERAL + VALUES + GRADK + ('shape', 'dtype', 'ident'), 'nodes whose hashes collide', args=['-collide'])
    c.probes(dict(replay=b))


def p16(c):
    b = build('replay')
    q = 4 if c.thorough else 1
    jobs = []
    for k, skip in ((K_TAPE, ()), (K_LISP, ()), (K_SYM, NODIFF), (K_AUTO, NODIFF)):
        jobs += sweeps(BGROUPS, skip, shapes=S_SWBC, **k) + named('rank4-', sweeps(BGROUPS, skip, shapes=S_SWBC4, **k))
    for k in range(4):
        s = c.seed * 1000 + 1600 + k
        mix = BARITH * 3 + BCMP + ['Neg', 'Sum', 'Transpose', 'Square']
        jobs.append(sess('tape%d' % k, s, 400 * q, mix, shapes=S_BC, MaxOps=2 + k, ReadMode='"all"'))
        jobs.append(sess('lisp%d' % k, s, 300 * q, mix, shapes=S_BC, MaxOps=2 + k, machines=LISPF, CheckVals='TRUE'))
        jobs.append(sess('grad%d' % k, s, 300 * q, BARITH * 2 + ['Square', 'Sum'], shapes=S_BC, GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID, MaxOps=1 + k))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GENERAL + VALUES + GRADK + ('shape', 'dtype', 'input'), 'broadcast operations')
    c.probes(dict(replay=b))


def p17(c):
    b = build('replay')
    q = 4 if c.thorough else 1
    jobs = []
    for k, skip in ((K_TAPE, ()), (K_LISP, ()), (K_SYM, NODIFF), (K_AUTO, NODIFF | NOAUTO)):
        jobs += nnsweeps(skip, **k)
    mix = NN * 3 + ['Rectify', 'Sigmoid', 'Tanh', 'LeakyRelu', 'Sum', 'Add', 'HadamardProd', 'Reshape', 'Square']
    for k in range(4):
        s = c.seed * 1000 + 1700 + k
        jobs.append(sess('tape%d' % k, s, 250 * q, mix, shapes=S_NN, MaxOps=2 + k, ReadMode='"all"'))
        jobs.append(sess('lisp%d' % k, s, 200 * q, mix, shapes=S_NN, MaxOps=2 + k, machines=LISPF, CheckVals='TRUE'))
        jobs.append(sess('grad%d' % k, s, 200 * q, [x for x in mix if x not in NODIFF], shapes=S_NN, GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID, MaxOps=1 + k))
        jobs.append(sess('auto%d' % k, s, 200 * q, [x for x in mix if x not in NODIFF | NOAUTO], shapes=S_NN, GradMode='"auto"', WithCost='TRUE', Grads='TRUE', machines=LISP, avoid=AUTO_AVOID, MaxIn=2, MaxOps=2 + k))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GENERAL + VALUES + GRADK + ('shape', 'dtype', 'input'), 'layers')
    c.probes(dict(replay=b))


def p20(c):
    b = build('bfc')
    base = dict(Align=32, MaxLive=3)
    jobs = [dict(name='spec', module='Bfc', consts=dict(Align=4, MaxOps=0), defs=dict(Sizes='{1, 4, 5, 8}'), invariants=('NoOverlap', 'Inside'), expect_lines=False),
            dict(name='all', module='BfcGen', consts=dict(base, Random='FALSE', MaxOps=7 if c.thorough else 6),
                 defs=dict(Sizes='{20, 32, 50, 64}', Mems='{96, 128}' if not c.thorough else '{96, 128, 140}', Starts='{4096}'))]
    for k in range(2):
        jobs.append(dict(name='long%d' % k, module='BfcGen', consts=dict(base, MaxLive=6, Random='TRUE', MaxOps=[24, 50][k]),
                         defs=dict(Sizes='{1, 20, 31, 32, 33, 50, 64, 96, 100}', Mems='{128, 140, 256, 300, 512}', Starts='{0, 4096, 1000}'),
                         sim=(3000 * (4 if c.thorough else 1), 60, c.seed * 1000 + k)))
    lines = c.run_jobs(jobs)
    c.validate(b, lines, 'BfcTrace', dict(Align=32, MaxOps=0), dict(Sizes='{}'), 'allocator')
    c.probes(dict(bfc=b))


def graphjob(name, kinds, steps, sim=None, final=False, **k):
    return dict(name=name, module='Graph', consts=dict(Random='TRUE' if sim else 'FALSE', MaxSteps=steps, MaxGraphs=k.get('graphs', 1), MaxNodes=k.get('nodes', 12),
                                                       FinalOnly='TRUE' if final else 'FALSE'),
                defs=dict(Names=k.get('names', '{"a", "b", "c1", "c2"}'), Ops1=k.get('ops1', '{"Square", "Cube", "Tanh"}'), Ops2=k.get('ops2', '{"Add", "Mul", "Pow"}'),
                          Values=k.get('values', '{"v1", "v2"}'), Kinds=tseq(kinds)),
                **(dict(sim=sim) if sim else dict(invariants=('Acyclic', 'OnceEach', 'SubsetOk'))))


BUILDK = ['in', 'const', 'op', 'read', 'rm', 'inner', 'gone']
GRAPH = ('nodes', 'ids', 'edges', 'roots', 'inputs', 'names', 'order', 'graph', 'ident', 'build', 'panic', 'hang', 'crash')


def p09(c):
    b = build('graph')
    q = 4 if c.thorough else 1
    jobs = [graphjob('all', BUILDK, 5 if c.thorough else 4, ops1='{"Square"}', ops2='{"Add"}', names='{"c1", "c2"}', values='{"v1"}'),
            graphjob('allops', ['in', 'op', 'rm', 'read'], 6 if c.thorough else 5, ops1='{"Square"}', ops2='{"Pow"}', names='{"a"}', values='{}')]
    for k in range(6):
        jobs.append(graphjob('rnd%d' % k, BUILDK + ['op'] * (3 + k) + ['in', 'rm', 'read'], [8, 12, 16, 20, 30, 40][k], nodes=[8, 10, 12, 14, 16, 20][k],
                             sim=(600 * q, 400, c.seed * 1000 + k)))
    jobs.append(graphjob('collide', BUILDK + ['op'] * 5 + ['in'], 12, nodes=10, names='{"c1", "c2"}', ops1='{"Square"}', ops2='{"Add"}', values='{"v1"}', sim=(600 * q, 400, c.seed * 1000 + 7)))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GRAPH, 'graph')
    c.probes(dict(graph=b))


def multi(name, seed, num, bag, hows, machines, maxw=1, maxm=3, maxev=8, ext=(), **k):
    j = sess(name, seed, num, bag, machines=machines, depth=k.pop('depth', 300), **k)
    j['module'] = 'Multi'
    j['initnext'] = ('MInit', 'MNext')
    j['consts'].update(MaxW=maxw, MaxM=maxm, MaxEv=maxev)
    j['defs'].update(Hows=tseq(hows), ExtBag=tseq(ext))
    return j


MTAPE = '<<<<"tape", <<>>>>, <<"tape", <<"trace">>>>>>'
MALL = '<<<<"tape", <<>>>>, <<"tape", <<"trace">>>>, <<"lisp", <<"fwd">>>>>>'
MTRACE = '<<<<"tape", <<"trace">>>>>>'
MULTI = ('build', 'run', 'let', 'clone', 'value', 'value-shape', 'grad', 'grad-shape', 'grad-build', 'input', 'other', 'other-shape', 'panic', 'hang', 'crash')


def p10(c):
    b = build('graph')
    r = build('replay')
    q = 4 if c.thorough else 1
    kinds = ['in', 'op', 'read', 'sub', 'rm']
    jobs = [graphjob('all', kinds, 5 if c.thorough else 4, ops1='{"Square"}', ops2='{"Add"}', names='{"a"}', values='{}', final=True)]
    for k in range(6):
        jobs.append(graphjob('rnd%d' % k, kinds + ['op'] * (3 + k) + ['sub', 'in', 'const', 'sub'], [8, 12, 16, 20, 30, 40][k], nodes=[8, 10, 12, 14, 16, 20][k],
                             sim=(600 * q, 400, c.seed * 1000 + k)))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GRAPH + ('sub',), 'graph')
    jobs = []
    for k in range(6):
        s = c.seed * 1000 + 1000 + k
        jobs.append(multi('val%d' % k, s, 300 * q, [ALL, ARITH * 3 + UN, SHAPE + RED + MORE, ALL, DIFF, DIFF][k], [['fn', 'exact', 'full'], ['fn', 'roots', 'one'], ['fn', 'exact', 'roots', 'one', 'full']][k % 3],
                          MTAPE if k >= 4 else [MTAPE, MALL][k % 2], MaxOps=3 + k, ReadMode='"some"', maxev=[8, 12][k % 2],
                          **(dict(GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID) if k >= 4 else {})))
    lines = c.run_jobs(jobs)
    c.replay(r, lines, MULTI, 'values')
    c.probes(dict(graph=b, replay=r))


def p11(c):
    b = build('graph')
    q = 4 if c.thorough else 1
    kinds = ['in', 'op', 'read', 'rm', 'clone', 'other', 'const']
    jobs = [graphjob('all', kinds, 5 if c.thorough else 4, ops1='{"Square"}', ops2='{"Add"}', names='{"c1", "c2"}', values='{"v1"}', final=True, graphs=2)]
    for k in range(6):
        jobs.append(graphjob('rnd%d' % k, kinds + ['op'] * (3 + k) + ['clone', 'rm', 'gone', 'inner', 'read'], [8, 12, 16, 20, 30, 40][k], nodes=[8, 10, 12, 14, 16, 20][k],
                             sim=(600 * q, 400, c.seed * 1000 + k), graphs=3))
    jobs.append(graphjob('collide', ['in', 'in', 'op', 'op', 'op', 'clone'], 10, nodes=10, names='{"c1", "c2"}', ops1='{"Square"}', ops2='{"Add"}', sim=(800 * q, 400, c.seed * 1000 + 7), graphs=2))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GRAPH + ('clone',), 'graph')
    r = build('replay')
    jobs = []
    ext = ['Square', 'Neg', 'Add', 'HadamardProd', 'Exp', 'Sum']
    for k in range(6):
        s = c.seed * 1000 + 1100 + k
        jobs.append(multi('val%d' % k, s, 300 * q, [ALL, ARITH * 3 + UN, SHAPE + RED + MORE, ALL, DIFF, DIFF][k], [['full'], ['full', 'full', 'exact']][k % 2],
                          MTRACE if k >= 4 else [MTAPE, MALL][k % 2], MaxOps=3 + k, ReadMode='"none"', maxev=[10, 14][k % 2], maxw=3, maxm=5, ext=ext if k < 4 else [],
                          **(dict(GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID) if k >= 4 else {})))
    for k in range(2):
        jobs.append(multi('bind%d' % k, c.seed * 1000 + 1180 + k, 200 * q, DIFF, ['full'], '<<<<"tape", <<"bind">>>>>>', MaxOps=3 + k, ReadMode='"none"', maxev=10, maxw=3, maxm=5,
                          GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID))
    for k in range(3):
        jobs.append(multi('auto%d' % k, c.seed * 1000 + 1190 + k, 200 * q, [x for x in DIFF if x not in NOAUTO], ['full'], [LISP, LISP, '<<<<"lisp", <<>>>>, <<"lisp", <<>>>>, <<"tape", <<"trace">>>>>>'][k], MaxOps=3 + k, MaxConst=0,
                          ReadMode='"none"', maxev=10, maxw=3, maxm=5, GradMode='"auto"', WithCost='TRUE', Grads='TRUE', avoid=AUTO_AVOID))
    lines = c.run_jobs(jobs)
    c.replay(r, lines, MULTI, 'values')
    c.probes(dict(graph=b, replay=r))


def p21(c):
    b = build('coll')
    jobs = [dict(name='all', module='Coll', consts=dict(Random='FALSE', MaxOps=1, MaxLen=3), defs=dict(U='1..3', Regs='1..3')),
            dict(name='two', module='Coll', consts=dict(Random='FALSE', MaxOps=2, MaxLen=2), defs=dict(U='1..2', Regs='1..3'))]
    for k in range(4):
        jobs.append(dict(name='rnd%d' % k, module='Coll', consts=dict(Random='TRUE', MaxOps=[10, 20, 30, 30][k], MaxLen=4), defs=dict(U='1..%d' % (3 + k), Regs='1..4'),
                         sim=(1000 * (4 if c.thorough else 1), 60, c.seed * 1000 + k)))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, ('coll', 'panic', 'hang', 'crash'), 'collections')
    c.probes(dict(coll=b))


def p19(c):
    b = build('bind')
    d = dict(Dts='{"f64", "f32", "int", "i64", "i32"}', Shapes='{<<>>, <<2>>, <<3>>, <<2, 3>>, <<3, 2>>, <<2, 1, 2>>}', Machines='{"tape", "lispfwd", "lisp"}')
    jobs = [dict(name='all', module='Bind', consts=dict(Random='FALSE', MaxOps=5, NIn=1), defs=d, initnext=('Init', 'Next1'), invariants=('Keeps',))]
    for k in range(4):
        jobs.append(dict(name='rnd%d' % k, module='Bind', consts=dict(Random='TRUE', MaxOps=[8, 15, 25, 40][k], NIn=1 + k % 3),
                         defs=dict(d, **(dict(Dts='{"f64", "f32"}', Shapes='{<<>>, <<2>>, <<2, 3>>}') if k % 2 else {})),
                         sim=(1000 * (4 if c.thorough else 1), 80, c.seed * 1000 + k)))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, ('bind', 'panic', 'hang', 'crash'), 'bindings')
    # other parts of the inputs are taken between runs
    r = build('replay')
    jobs = []
    for k in range(2):
        j = sess('parts%d' % k, c.seed * 1000 + 50 + k, 400 * (4 if c.thorough else 1), ['Slice'] * 4 + ['Add', 'Neg', 'Sum', 'HadamardProd', 'Reshape'],
                 shapes='<<<<4>>, <<3>>, <<4, 2>>, <<3, 3>>, <<3, 2, 2>>>>', MaxIn=3, MaxOps=4, MaxRuns=4, machines=[TAPES, LISPF][k], CheckVals=['FALSE', 'TRUE'][k], depth=160)
        j['over'] = dict(Reslices='Yes', ResetHows='EveryHow')
        jobs.append(j)
    lines = c.run_jobs(jobs)
    c.replay(r, lines, GENERAL + VALUES + ('let',), 'other parts')
    c.probes(dict(bind=b, replay=r))


def p23(c):
    b = build('vals')
    d = dict(Dts='{"f64", "f32", "int", "i64", "i32", "u8", "bool"}', Shapes='{<<>>, <<2>>, <<3>>, <<2, 2>>, <<1, 3>>, <<3, 1>>, <<2, 1, 2>>}')
    jobs = [dict(name='pairs', module='Vals', consts=dict(Random='FALSE', MaxOps=4), defs=dict(d, Regs='1..2'), initnext=('Init', 'Next1'), invariants=('Inside',))]
    for k in range(4):
        jobs.append(dict(name='rnd%d' % k, module='Vals', consts=dict(Random='TRUE', MaxOps=[8, 15, 30, 60][k]),
                         defs=dict(d, Regs='1..%d' % [3, 3, 4, 5][k], **(dict(Dts='{"f64", "f32"}', Shapes='{<<>>, <<2>>, <<2, 2>>}') if k % 2 else {})),
                         sim=(1500 * (4 if c.thorough else 1), 80, c.seed * 1000 + k)))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, ('vals', 'panic', 'hang', 'crash'), 'values')
    c.probes(dict(vals=b))


def p26(c):
    b = build('blase')
    jobs = [dict(name='one', module='Blas', consts=dict(Random='FALSE', MaxOps=2, Room=3), initnext=('Init', 'Next1'))]
    for k in range(4):
        jobs.append(dict(name='rnd%d' % k, module='Blas', consts=dict(Random='TRUE', MaxOps=[4, 6, 9, 14][k], Room=3),
                         sim=(700 * (4 if c.thorough else 1), 60, c.seed * 1000 + k)))
    full = [dict(name='full%d' % k, module='Blas', consts=dict(Random='TRUE', MaxOps=[6, 12][k], Room=30), sim=(700 * (4 if c.thorough else 1), 60, c.seed * 1000 + 10 + k))
            for k in range(2)]
    c.run_jobs(jobs + full)
    judge = ('blas', 'panic', 'hang', 'crash')
    c.replay(b, sum([j['out'] for j in jobs], []), judge, 'queued calls, flushed by the caller')
    c.replay(b, sum([j['out'] for j in jobs + full], []), judge, 'queued calls, flushed by a worker', args=['-worker'])
    c.probes(dict(blase=b))


def p25(c):
    b = build('lift')
    defs = dict(Fns='{"lift1", "axial", "lift2", "bcast"}')
    jobs = [dict(name='all', module='Lift', consts=dict(Random='FALSE', MaxOps=2), defs=defs)]
    for k in range(2):
        jobs.append(dict(name='rnd%d' % k, module='Lift', consts=dict(Random='TRUE', MaxOps=[6, 15][k]), defs=defs, sim=(1500 * (4 if c.thorough else 1), 60, c.seed * 1000 + k)))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, ('lift', 'panic', 'hang', 'crash'), 'lifted functions')
    c.probes(dict(lift=b))


SOLVERS = ('vanilla', 'momentum', 'rmsprop', 'adagrad', 'adam', 'adamw', 'bb')


def p15(c):
    b = build('solver')
    sh = '{<<>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<1, 3>>, <<3, 1>>, <<2, 1, 2>>}'
    # every combination of options, one small parameter of each kind
    jobs = []
    for k, s in enumerate(SOLVERS):
        for w in (False, True):
            jobs.append(dict(name='%s%d' % (s, w), module='Solver', consts=dict(Random='TRUE', MaxSteps=5 if w else 10, MaxPar=2 if w else 3, Wild='TRUE' if w else 'FALSE'),
                             defs=dict(Kinds='{"%s"}' % s, Shapes=sh, Carriers='{"node", "own"}', Dts='{"f64", "f32"}'),
                             sim=(400 * (6 if c.thorough else 1), 60, c.seed * 1000 + k)))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, ('solver', 'panic', 'hang', 'crash'), 'solvers')
    c.probes(dict(solver=b))


SMOOTH = ['Add', 'Sub', 'HadamardProd', 'Mul', 'Mul', 'Mul', 'Square', 'Cube', 'Tanh', 'Sigmoid', 'Sin', 'Cos', 'Exp', 'Sum', 'Mean', 'Neg',
          'Transpose', 'Reshape', 'Slice', 'Concat', 'SoftMax', 'Softplus', 'OuterProd', 'BroadcastAdd', 'BroadcastHadamardProd', 'Ravel',
          'BatchedMatMul']


def train(name, seed, num, solvers, mode, **k):
    j = sess(name, seed, num, SMOOTH, depth=150, **k)
    j.update(module='Train', initnext=('TInit', 'TNext'), over=dict(InT='RegT', MaxSize='TrainSize'))
    j['consts'].update(GradMode='"%s"' % mode, WithCost='TRUE', Grads='TRUE', MaxIters=8)
    j['defs'].update(Solvers=tset(solvers), Machines=TRAIN_TAPE if mode == 'sym' else TRAIN_LISP,
                     Avoid=tset(SYM_AVOID if mode == 'sym' else AUTO_AVOID))
    return j


TRAIN_TAPE = '<<<<"tape", <<>>>>, <<"tape", <<"trace">>>>>>'
TRAIN_LISP = '<<<<"lisp", <<>>>>>>'


def p24(c):
    b = build('replay')
    q = 4 if c.thorough else 1
    jobs = []
    for k in range(8):
        jobs.append(train('loop%d' % k, c.seed * 1000 + 2400 + k, 400 * q, SOLVERS, ['sym', 'auto'][k % 2], MaxIn=2 + k // 2 % 3, MaxOps=2 + k // 2))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GENERAL + GRADK + ('value', 'value-shape', 'input', 'let', 'other'), 'training loops')
    c.probes(dict(replay=b))


FLAKY = ['FlakyId', 'FlakyAdd'] * 4 + ['Add', 'Sub', 'HadamardProd', 'Mul', 'Square', 'Tanh', 'Sum', 'Neg', 'Transpose', 'Reshape', 'Slice', 'Concat', 'SoftMax', 'Exp', 'Mean']


def p12(c):
    b = build('replay')
    q = 4 if c.thorough else 1
    jobs = []
    for k in range(3):
        s = c.seed * 1000 + 1200 + k
        for name, kw in (('tape', dict(machines=TAPES)), ('lisp', dict(machines=LISPF, CheckVals='TRUE')),
                         ('sym', dict(GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID, machines=TAPES)),
                         ('auto', dict(GradMode='"auto"', WithCost='TRUE', Grads='TRUE', avoid=AUTO_AVOID, machines=LISP, ReadMode='"none"'))):
            j = sess('%s%d' % (name, k), s, 250 * q, FLAKY, MaxOps=3 + 2 * k, MaxRuns=5, depth=120, **kw)
            j.update(module='Fail', initnext=('Init', 'FNext'))
            jobs.append(j)
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GENERAL + VALUES + GRADK + ('fails', 'cause', 'leak'), 'failing operators')
    c.probes(dict(replay=b))


def p13(c):
    b = build('replay')
    q = 4 if c.thorough else 1
    jobs = []
    sh = '{<<>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<2, 3>>, <<3, 1>>, <<1, 3>>, <<4>>}'
    for k, (kind, watch) in enumerate([(m, w) for m in ('tape', 'lisp') for w in ('<<>>', '<<"nan">>', '<<"inf">>', '<<"nan", "inf">>')]):
        for mode in ('fwd', 'sqrt', 'prod'):
            jobs.append(dict(name='%s-%s%d' % (kind, mode, k), module='Watch', consts=dict(MaxIn=3, MaxOps=2 + k % 4 * 2, MaxRuns=4, Mode='"%s"' % mode),
                             defs=dict(Kinds='{"%s"}' % kind, Watches='{%s}' % watch, Shapes=sh, Dts='{"f64", "f32"}'),
                             sim=((400 if mode == 'fwd' else 150) * q, 70, c.seed * 1000 + 1300 + k)))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GENERAL + ('watch',), 'watches')
    c.probes(dict(replay=b))


def p18(c):
    b = build('modes')
    q = 4 if c.thorough else 1
    jobs = []
    sh2, sh4 = '<<2, 2>>, <<3, 1>>, <<2, 3>>, <<3, 2>>', '<<2, 2, 1, 1>>, <<2, 1, 2, 2>>, <<1, 2, 1, 2>>, <<2, 2, 2, 1>>, <<1, 1, 2, 3>>'
    chains = ['<<"bn">>', '<<"drop">>', '<<"Square", "bn">>', '<<"bn", "drop">>', '<<"drop", "Neg">>', '<<"drop", "Tanh">>', '<<"drop", "bn">>', '<<"bn", "Square">>',
              '<<"Neg", "drop", "Square">>', '<<"bn", "Tanh">>', '<<"drop", "skip">>', '<<"bn", "skip">>', '<<"Square", "drop", "skip">>']
    deep = chains + ['<<"bn", "bn">>', '<<"bn", "drop", "bn">>', '<<"drop", "Square", "drop">>', '<<"Square", "bn", "Neg", "drop">>']
    for k in range(2):
        for mode, kinds, ch in (('none', '"tape", "lisp"', deep), ('sym', '"tape"', chains), ('auto', '"lisp"', chains)):
            for nm, sh in (('flat', sh2), ('image', sh4)):
                jobs.append(dict(name='%s-%s%d' % (mode, nm, k), module='Modes', consts=dict(GradMode='"%s"' % mode, MaxSteps=6 + 4 * k),
                                 defs=dict(Avoid='{"dropout-scale"}', Kinds='{%s}' % kinds, Shapes='{%s}' % sh, Dts='{"f64", "f32"}', Chains='{%s}' % ', '.join(ch)),
                                 sim=((400 if mode == 'none' else 250) * q, 40, c.seed * 1000 + 1800 + k)))
    jobs.append(dict(name='wide', module='Modes', consts=dict(GradMode='"none"', MaxSteps=6),
                     defs=dict(Avoid='{}', Kinds='{"tape", "lisp"}', Shapes='{<<32, 4>>, <<8, 2, 2, 4>>}', Dts='{"f64", "f32"}', Chains='{<<"drop">>, <<"drop", "Neg">>}'),
                     sim=(60 * q, 40, c.seed * 1000 + 1890)))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, GENERAL + GRADK + ('value', 'stats', 'mode', 'input'), 'modes')
    c.probes(dict(modes=b))


def p14(c):
    b = build('xvm')
    q = 5 if c.thorough else 1
    small = '<<>>, <<<<>>>>, <<<<>>, <<1>>>>, <<<<>>, <<1, 1>>>>, <<<<>>, <<>>, <<2, 1>>>>, <<<<>>, <<1>>, <<2, 1>>>>, <<<<>>, <<>>, <<1>>>>'
    large = '<<<<>>, <<>>, <<1, 2>>, <<3, 1>>>>, <<<<>>, <<1>>, <<1>>, <<2, 3>>>>, <<<<>>, <<1>>, <<2>>, <<3>>>>, <<<<>>, <<1>>, <<1>>, <<1>>>>'
    net = dict(module='Net', spec='Spec', deadlock=True, expect_lines=False, timeout=800,
               invariants=('Placed', 'Clean', 'Fed', 'OkComplete', 'ErrorHasReason'), properties=('Refines',))
    jobs = [dict(net, name='net', consts=dict(Failing=2, MayCancel='TRUE'), defs=dict(Graphs='{%s}' % small)),
            dict(net, name='net-large', consts=dict(Failing=2 if c.thorough else 1, MayCancel='TRUE' if c.thorough else 'FALSE'), defs=dict(Graphs='{%s}' % large), workers=4)]
    if c.thorough:
        jobs.append(dict(net, name='net-diamond', consts=dict(Failing=0, MayCancel='TRUE'), defs=dict(Graphs='{<<<<>>, <<1>>, <<1>>, <<2, 3>>>>}'), workers=4))
    sched = []
    for f, n in (('none', 300), ('fail', 400), ('cancel', 400), ('both', 300)):
        for k in range(2):
            sched.append(dict(name='sched-%s%d' % (f, k), module='Xvm', consts=dict(MaxIn=3, MaxOps=(6, 12)[k], MaxArity=(3, 2)[k], MaxRuns=3, Fault='"%s"' % f), defs=dict(Fixed='{}'),
                              sim=(n * q, 200, c.seed * 1000 + 1400 + k)))
    sched.append(dict(name='all-orders', module='Xvm', consts=dict(MaxIn=0, MaxOps=0, MaxArity=0, MaxRuns=1, Fault='"both"'), defs=dict(Fixed='{%s, %s}' % (small, large))))
    sched.append(dict(name='all-twice', module='Xvm', consts=dict(MaxIn=0, MaxOps=0, MaxArity=0, MaxRuns=2, Fault='"both"'), defs=dict(Fixed='{%s}' % small)))
    chain = '<<%s>>' % ', '.join(['<<>>'] + ['<<%d>>' % i for i in range(1, 50)])
    sched.append(dict(name='chain', module='Xvm', consts=dict(MaxIn=0, MaxOps=0, MaxArity=0, MaxRuns=1, Fault='"cancel"'), defs=dict(Fixed='{%s}' % chain)))
    lines = c.run_jobs(jobs + sched)
    c.replay(b, lines, GENERAL + ('value', 'fails', 'leak'), 'schedules')
    r = build('replay', ('-race',))
    jobs = []
    nn = ['Conv2d', 'Conv1d', 'MaxPool2D', 'AveragePool2D', 'Rectify', 'SoftMax', 'Upsample2D', 'GlobalAveragePool2D', 'Add', 'BatchedMatMul', 'Concat']
    for k in range(2):
        s = c.seed * 1000 + 1440 + k
        jobs.append(sess('nn%d' % k, s, 150 * q, nn, shapes=S_NN, machines=XVM, CheckVals='TRUE', MaxOps=4 + k * 3, ReadMode='"none"'))
        jobs.append(sess('nnsym%d' % k, s, 100 * q, [x for x in nn if x not in NODIFF], shapes=S_NN, machines=XVM, CheckVals='TRUE', GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID,
                         MaxOps=2 + k * 2, ReadMode='"none"'))
        jobs.append(ints('ints%d' % k, s, 150 * q, machines=XVM, CheckVals='TRUE', MaxOps=3 + k, MaxRuns=2))
        jobs.append(sess('prod%d' % k, s, 200 * q, ['Mul', 'Mul', 'Add', 'Transpose', 'BatchedMatMul', 'HadamardProd', 'Square'], machines=XVM, CheckVals='TRUE', GradMode='"sym"', WithCost='TRUE', Grads='TRUE',
                         avoid=SYM_AVOID, MaxOps=3 + k * 3, ReadMode='"none"'))
    for k in range(4):
        s = c.seed * 1000 + 1450 + k
        jobs.append(sess('mix%d' % k, s, 300 * q, ALL, machines=XVM, CheckVals='TRUE', MaxOps=4 + k * 3, ReadMode='"none"', MaxRuns=2))
        jobs.append(sess('sym%d' % k, s, 200 * q, SMOOTH, machines=XVM, CheckVals='TRUE', GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID, MaxOps=2 + k * 2, ReadMode='"none"', MaxRuns=2))
    lines = c.run_jobs(jobs)
    c.replay(r, lines, GENERAL + VALUES + GRADK + ('input', 'race'), 'graphs', env=RACE)


def p27(c):
    b = build('weights')
    q = 4 if c.thorough else 1
    sh = '{<<>>, <<1>>, <<2>>, <<5>>, <<2, 3>>, <<3, 1>>, <<1, 4>>, <<2, 3, 2>>, <<2, 1, 2, 3>>}'
    large = '{<<1000>>, <<30, 40>>, <<40, 25>>, <<10, 10, 10>>, <<20, 5, 3, 3>>}'
    w = dict(module='Weights', invariants=('Sane',))
    jobs = [dict(w, name='every', consts=dict(Random='FALSE', MaxOps=1, MaxRuns=0, Repeat=1, Mode='"init"'), defs=dict(Shapes=sh, Large=large))]
    jobs.append(dict(w, name='often', consts=dict(Random='FALSE', MaxOps=1, MaxRuns=1, Repeat=300, Mode='"graph"'), defs=dict(Shapes='{<<>>, <<2>>, <<2, 2>>}', Large='{}')))
    for k in range(4):
        jobs.append(dict(w, name='graph%d' % k, consts=dict(Random='TRUE', MaxOps=[2, 4, 7, 12][k], MaxRuns=3, Repeat=1, Mode='"graph"'), defs=dict(Shapes=sh if k else large, Large='{}'),
                         sim=(400 * q, 100, c.seed * 1000 + 2700 + k)))
    lines = c.run_jobs(jobs)
    c.replay(b, lines, ('weights', 'panic', 'hang', 'crash'), 'initial values and random nodes')
    c.probes(dict(weights=b))


def par(name, seed, num, bag, modes, shapes=S_SMALL, cut=0, **k):
    """three sessions at the same time"""
    c = dict(Random='TRUE', Grads='TRUE' if '"none", "none", "none"' not in modes else 'FALSE', MaxIn=3, MaxConst=1, MaxOps=4, MaxTries=20, ReadMode='"some"', CheckInputs='TRUE', MaxRuns=2, CutEvery=cut)
    c.update(k)
    m = '[none |-> %s, sym |-> %s, auto |-> %s]' % (TAPES[:-2] + ', ' + LISPF[2:], TAPES, LISP)
    return dict(name=name, module='Par', consts=c, invariants=('Emit',), sim=(num, 400, seed),
                defs=dict(OpBag=tbag(bag), ShapeBag=shapes, Dtypes='{"f64", "f32"}', Avoid=tset(sorted(set(SYM_AVOID) | set(AUTO_AVOID) | set(FWD_AVOID))), BadBag=tbag(()), Modes='<<%s>>' % modes, MachinesFor=m))


def p22(c):
    b = build('par', ('-race',))
    q = 5 if c.thorough else 1
    smooth = [x for x in ALL if x not in NODIFF]
    auto = [x for x in smooth if x not in NOAUTO]
    jobs = []
    for k in range(2):
        s = c.seed * 1000 + 2200 + k
        cut = (0, 12)[k]
        jobs.append(par('values%d' % k, s, 60 * q, ALL, '"none", "none", "none"', cut=cut))
        jobs.append(par('grads%d' % k, s, 60 * q, smooth, '"sym", "sym", "sym"', cut=cut))
        jobs.append(par('auto%d' % k, s, 60 * q, auto, '"auto", "auto", "auto"', cut=cut))
        jobs.append(par('mixed%d' % k, s, 60 * q, auto, '"none", "sym", "auto"', cut=cut))
    lines = c.run_jobs(jobs)
    # histories of other parts of the specification, three at a time in one round
    nn = ['Conv2d', 'Conv1d', 'MaxPool2D', 'AveragePool2D', 'Rectify', 'SoftMax', 'Upsample2D', 'Add', 'BatchedMatMul', 'Concat', 'GroupNorm']
    jobs = []
    for k in range(2):
        s = c.seed * 1000 + 2240 + k
        jobs.append(train('loop%d' % k, s, 100 * q, SOLVERS, ['sym', 'auto'][k], MaxIn=3, MaxOps=4))
        jobs.append(sess('nn%d' % k, s, 100 * q, nn, shapes=S_NN, MaxOps=4, MaxRuns=2))
        jobs.append(sess('nnsym%d' % k, s, 100 * q, [x for x in nn if x not in NODIFF], shapes=S_NN, GradMode='"sym"', WithCost='TRUE', Grads='TRUE', avoid=SYM_AVOID, MaxOps=3))
        jobs.append(sess('xvm%d' % k, s, 100 * q, ALL, machines=XVM, CheckVals='TRUE', MaxOps=6, ReadMode='"none"', MaxRuns=2))
        jobs.append(sess('big%d' % k, s, 100 * q, ALL, shapes=S_BIG, MaxOps=6))
        jobs.append(sess('autonn%d' % k, s, 100 * q, [x for x in nn if x not in NODIFF and x not in NOAUTO], shapes=S_NN, GradMode='"auto"', WithCost='TRUE', Grads='TRUE', machines=LISP, avoid=AUTO_AVOID, MaxOps=3))
    alone = sorted(set(c.run_jobs(jobs)))
    random.Random(c.seed).shuffle(alone)
    for i in range(0, len(alone) - 2, 3):
        t = alone[i:i + 3]
        lines.append('{"marks": [%s], "traces": [%s]}' % ([len(json.loads(x)) for x in t], ', '.join(t)))
    c.replay(b, lines, GENERAL + VALUES + GRADK + ('input', 'let', 'other', 'race'), 'concurrent sessions', env=RACE)


CHECKS = dict(P27=p27, P22=p22, P14=p14, P18=p18, P13=p13, P12=p12, P24=p24, P15=p15, P08=p08, P09=p09, P10=p10, P11=p11, P19=p19, P23=p23, P25=p25, P26=p26, P21=p21, P20=p20, P01=p01, P02=p02, P03=p03, P04=p04, P05=p05, P06=p06, P07=p07, P16=p16, P17=p17)
TECH = {'*': 'TLA+ specification explored with TLC; its behaviours are replayed into the library and every observation is compared'}
NOTE = {'*': 'random and bounded behaviours of the specification, replayed on the real code through its public API'}
NA = {}
