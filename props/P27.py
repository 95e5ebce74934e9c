"""Losses: excluded DOMs do not contribute."""
import numpy as np
from symx.runner import Harness
from props import lossfx as lx
from props.P28 import B, F, assume_valid

FRACTIONS = 'normalized_dom_charge_pdf'
ATS = [(1, 0, 1), (0, 1, 0)]


def excluded(env, case):
    """Nothing the model predicts at an excluded DOM matters."""
    AT = ATS[case.get('at', 0)]
    a = lx.arrays(env, case)
    assume_valid(env, case, a)
    mask = np.array(a['mask'])
    mask[AT + (0,)] = mask[AT + (0,)] * 0
    a['mask'] = env.wrap(mask)
    if case['loss'] == lx.NAMES[2] and case.get('norm'):
        # charges at excluded DOMs only enter a constant
        c = np.array(a['charge'])
        c[AT + (0,)] = c[AT + (0,)] * 0
        a['charge'] = env.wrap(c)
    b = dict(a)
    for k in ('charge',) + tuple(lx.KEYS[:3]):
        v = np.array(a[k])
        if k == 'dom_charges' and case['loss'] == FRACTIONS:
            continue
        if not (k == 'charge' and case.get('norm')
                and case['loss'] == lx.NAMES[2]):
            v[AT + (0,)] = env.real(
                'other_' + k, pos=k in lx.KEYS[:2], nonneg=k == 'charge',
                smp=(0.2, 2))
        b[k] = env.wrap(v)
    for kw in (dict(), dict(sort=True, scalar=False)):
        c = dict(case, **kw)
        x, y = lx.call(env, c, a), lx.call(env, c, b)
        for u, v in zip(x, y):
            for i in np.ndindex(*u.shape):
                p, q = (u[i], v[i]) if u.shape else (
                    (u.arr(), v.arr()) if env.sym else (u, v))
                env.eq(p, q, 'results at an excluded DOM do not matter')


def not_excluded(env, case):
    """A mask without exclusions changes nothing."""
    a = lx.arrays(env, case)
    a['mask'] = env.wrap(np.array(a['mask']) * 0 + 1)
    x = lx.call(env, case, a)[0]
    y = lx.call(env, dict(case, mask=False), a)[0]
    z = lx.call(env, dict(case, mask=None), a)[0]
    if env.sym:
        x, y, z = x.arr(), y.arr(), z.arr()
    env.eq(x, y, 'a mask that excludes no DOM changes nothing')
    env.eq(x, z, 'a mask that excludes no DOM changes nothing')


N = [n for n in lx.NAMES if n != FRACTIONS]
CASES = [dict(loss=n, mask=True, norm=v) for n in N for v in (False, True)]
CASES.append(dict(loss=FRACTIONS, mask=True))
HARNESSES = [Harness('excluded', excluded, CASES + [
    dict(c, at=1) for c in CASES if not c.get('norm')], F, B),
             Harness('not_excluded', not_excluded, [
                 dict(c) for c in CASES], F, B)]
from props.P28 import ASSUMPTIONS                           # noqa: E402
