"""Losses: scalar loss equals the documented negative log likelihood."""
import numpy as np
from symx.runner import Harness
from props import lossfx as lx


def assume_valid(env, case, a):
    """Some DOM of each event is not excluded."""
    if case.get('mask'):
        for b in range(lx.NB):
            env.assume(np.asarray(a['mask'])[b, 0, 0, 0] > 0.5)


def scalar(env, case):
    a = lx.arrays(env, case)
    assume_valid(env, case, a)
    r = lx.call(env, case, a)
    pulse, dom, event = lx.terms(env, case, a)
    want = sum(pulse) + sum(dom.values()) + sum(event)
    if case.get('total'):
        q = np.asarray(a['pulses'])[:, 0]
        want = want / (sum(q) + 5160 * lx.NB)
    env.check(len(r) == 1 and tuple(r[0].shape) == (), 'a scalar')
    if case['loss'] in lx.NAMES[5:7]:
        # many different denominators: one by one, then their sum
        t = lx.call(env, dict(case, sort=True, scalar=False), a)
        scale = 1
        if case.get('total'):
            scale = 1 / (sum(np.asarray(a['pulses'])[:, 0])
                         + 5160 * lx.NB)
        want = 0
        for d in np.ndindex(*lx.GRID):
            env.eq(t[2][d], dom[d] * scale, 'log likelihood of a DOM')
        for b in range(lx.NB):
            env.eq(t[1][b], event[b] * scale, 'log likelihood of an event')
        k = 1 if case['loss'] == lx.NAMES[6] else 2
        want = sum([t[k][i] for i in np.ndindex(*t[k].shape)])
    env.eq(r[0].arr() if env.sym else r[0], want,
           'negative log likelihood')


def refused(env, case):
    """Contradicting options and models without exclusions are refused."""
    case = dict(case)
    a = lx.arrays(env, case)
    both = dict(case, sort=True, scalar=True)
    env.raises(ValueError, lambda: lx.call(env, both, a), 'sorted scalar')
    if case['loss'] in lx.NAMES:
        m = lx.module(case)
        ts = lx.tensors(dict(case, time=True))
        import tensorflow as tf
        one = tf.ones(lx.GRID + (1,), dtype=tf.float64)
        batch = {'x_pulses': tf.ones((5, 3), dtype=tf.float64),
                 'x_pulses_ids': tf.constant(lx.IDS),
                 'x_dom_charge': one, 'x_dom_exclusions': one > 0}
        res = {k: one for k in lx.KEYS[:3]}
        res.update({k: one[0, 0, 0, 0] * tf.ones((5,), dtype=tf.float64)
                    for k in lx.KEYS[3:]})
        env.raises(AssertionError, lambda: m.get_loss(
            batch, res, ts, None), 'time exclusions without their fraction')


M = 'egenerator.loss.default.DefaultLossModule.'
F = [M + 'get_loss', M + 'log_faculty'] + [M + n for n in lx.NAMES]
B = ('2 events, 4 DOMs each, 5 pulses (two pairs at one DOM), arbitrary '
     'charges, masks and model results')
CASES = lx.cases() + lx.cases(mask=True) + lx.cases(
    norm=True, mask=True, total=True, time=True) + [
    dict(loss=lx.NAMES[0], norm=True), dict(loss=lx.NAMES[1], total=True),
    dict(loss=lx.NAMES[2], norm=True, mask=None, time=False),
    dict(loss=lx.NAMES[3], low=0.25), dict(loss=lx.NAMES[3], high=0.5),
    dict(loss=lx.NAMES[3], low=0.25, high=0.75, mask=True),
    dict(loss=lx.NAMES[0], ids=[[0, 0, 1]], total=True),
    dict(loss=lx.NAMES[4], ids=[], total=True),
    dict(loss=lx.NAMES[0], ids=[]), dict(loss=lx.NAMES[1], ids=[[1, 0, 1]])]
HARNESSES = [Harness('scalar', scalar, CASES, F, B),
             Harness('refused', refused, lx.cases(), F, 'one batch')]
ASSUMPTIONS = ['the number of strings and DOMs of the detector is reduced '
               'to 2 times 2', 'model results are positive (densities: not '
               'negative); with masks one DOM of each event is valid']
