"""Losses: several loss modules add up."""
import numpy as np
from symx.runner import Harness
from props import lossfx as lx
from props.P28 import F, assume_valid
from props.P30 import build as snowstorm, names_of
from props import P30
from egenerator.loss.multi_loss import MultiLossModule

INNER = {}


def parts(case):
    out = []
    for c in case['parts']:
        k = repr(sorted(c.items(), key=str))
        if k not in INNER:
            if 'loss' in c:
                INNER[k] = (lx.module(c), None)
            else:
                INNER[k] = snowstorm(c)
        out.append(INNER[k])
    return out


MULTI = {}


def multi(case):
    k = repr(case['parts'])
    if k not in MULTI:
        m = MultiLossModule()
        m.configure(loss_modules=[p[0] for p in parts(case)])
        MULTI[k] = m
    return MULTI[k]


def combined(env, case):
    """The result is the sum (or the list) of those of the modules."""
    ps = parts(case)
    model = [p[1] for p in ps if p[1] is not None]
    n = len(names_of(P30.SMALL)) if model else 2
    base = dict(mask=True, total=case.get('total', False),
                model=model[0] if model else None,
                tensor=case.get('tensor'))
    a = lx.arrays(env, base)
    a['par'] = env.array('parameter', (lx.NB, n), lo=-3, hi=3)
    assume_valid(env, base, a)
    modes = [dict(), dict(scalar=False), dict(scalar=False, sort=True)]
    for kw in modes:
        c = dict(base, **kw)
        got = lx.call(env, c, a, multi(case), 'multi' + repr(case['parts']))
        single = [lx.call(env, c, a, p[0], 'part' + repr(q))
                  for p, q in zip(ps, case['parts'])]
        if kw.get('scalar', True):
            env.check(len(got) == 1, 'one loss')
            want = sum([s[0].arr() if env.sym else s[0] for s in single])
            env.eq(got[0].arr() if env.sym else got[0], want,
                   'sum of all modules')
            continue
        if kw.get('sort'):
            env.check(len(got) == 3, 'three kinds of terms')
            shapes = [(), (lx.NB,), lx.GRID]
            for t, shape in enumerate(shapes):
                env.check(tuple(got[t].shape) == shape, 'shape of terms')
                for i in np.ndindex(*shape):
                    want = sum([value(env, s[t], i) for s in single])
                    env.eq(value(env, got[t], i), want,
                           'terms of all modules')
            continue
        flat = [x for s in single for x in s]
        env.check(len(got) == len(flat), 'all terms of all modules')
        for x, y in zip(got, flat):
            env.check(tuple(x.shape) == tuple(y.shape), 'shape of a term')
            for i in np.ndindex(*y.shape):
                env.eq(value(env, x, i), value(env, y, i), 'a term')


def value(env, x, i):
    if x.shape == ():
        return x.arr() if env.sym else x
    return x[i]


DEF = [dict(loss=n) for n in lx.NAMES]
CASES = [
    dict(parts=[DEF[0], DEF[5]]), dict(parts=[DEF[2]]),
    dict(parts=[DEF[1], DEF[4], DEF[5]], total=True),
    dict(parts=[DEF[0], P30.SMALL]), dict(parts=[P30.SMALL, DEF[1]]),
    dict(parts=[DEF[0], DEF[0]]),
    dict(parts=[P30.SMALL, DEF[3]], tensor='x_seed'),
    dict(parts=[DEF[1], DEF[3], DEF[6], P30.SMALL]),
    dict(parts=[dict(DEF[0], norm=True), dict(DEF[2], norm=True)]),
]
HARNESSES = [Harness(
    'combined', combined, CASES,
    ['egenerator.loss.multi_loss.MultiLossModule.get_loss',
     'egenerator.loss.snowstorm.SnowstormPriorLossModule.get_loss'] + F,
    '1 to 4 modules, 2 events, 4 DOMs each, 5 pulses')]
from props.P28 import ASSUMPTIONS                           # noqa: E402
