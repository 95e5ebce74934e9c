"""Losses: sorted terms belong to their events and DOMs and sum up."""
import numpy as np
from symx.runner import Harness
from props import lossfx as lx
from props.P28 import B, F, assume_valid


def sorted_terms(env, case):
    a = lx.arrays(env, case)
    assume_valid(env, case, a)
    case = dict(case, sort=True, scalar=False)
    r = lx.call(env, case, a)
    env.check(len(r) == 3, 'three kinds of terms')
    env.check(tuple(r[0].shape) == (), 'scalar term')
    env.check(tuple(r[1].shape) == (lx.NB,), 'one term per event')
    env.check(tuple(r[2].shape) == lx.GRID, 'one term per DOM')
    pulse, dom, event = lx.terms(env, case, a)
    scale = 1
    if case.get('total'):
        scale = 1 / (sum(np.asarray(a['pulses'])[:, 0]) + 5160 * lx.NB)
    env.eq(r[0].arr() if env.sym else r[0], 0, 'scalar term')
    for b in range(lx.NB):
        env.eq(r[1][b], event[b] * scale, 'term of an event')
    for d in np.ndindex(*lx.GRID):
        here = [p for p, i in zip(pulse, case.get('ids', lx.IDS))
                if tuple(i) == d]
        env.eq(r[2][d], (dom[d] + sum(here)) * scale, 'term of a DOM')


def sums(env, case):
    """Unsorted terms, sorted terms and the scalar agree."""
    a = lx.arrays(env, case)
    assume_valid(env, case, a)
    tot = []
    for kw in (dict(), dict(sort=True, scalar=False), dict(scalar=False)):
        r = lx.call(env, dict(case, **kw), a)
        s = 0
        for x in r:
            v = x.arr() if env.sym else np.asarray(x)
            s = s + (sum(np.asarray(v).reshape(-1)) if x.shape != () else v)
        tot.append(s)
    env.eq(tot[1], tot[0], 'sorted terms add up to the loss')
    env.eq(tot[2], tot[0], 'terms add up to the loss')


CASES = lx.cases() + lx.cases(mask=True) + lx.cases(
    norm=True, mask=True, total=True) + lx.cases(norm=True) + [
    dict(loss=lx.NAMES[3], low=0.25, high=0.75, mask=True),
    dict(loss=lx.NAMES[0], ids=[]), dict(loss=lx.NAMES[1], ids=[[1, 0, 1]])]
HARNESSES = [Harness('sorted_terms', sorted_terms, CASES, F, B),
             Harness('sums', sums, CASES, F, B)]
from props.P28 import ASSUMPTIONS                           # noqa: E402
