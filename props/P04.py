"""Normalisation constants are the pooled statistics of the data stream."""
import numpy as np
import tensorflow as tf
from symx.runner import Harness
from egenerator.data import trafo as trafo_mod
from egenerator.data.tensor import DataTensorList
from props import fx

M = 'egenerator.data.trafo.DataTransformer.'


class Handler(object):
    """Stands in for a data handler: replays the given batches."""

    def __init__(self, tensors, batches):
        self.tensors = tensors
        self.batches = batches
        self.asked = []

    def get_batch_generator(self, **settings):
        self.asked.append(settings)
        return iter(self.batches)


def body(env, case):
    env.patch_np(trafo_mod)
    env.patch(trafo_mod, 'tqdm', lambda x: x)
    if env.sym:
        env.patch(trafo_mod, 'float', lambda x: x)
    shape, axes, log = case['shape'], case['axes'], case['log']
    lgs = log if isinstance(log, list) else [bool(log)] * shape[-1]
    # 'm' is between the others in canonical order; 'z' does not exist
    ts = DataTensorList([
        fx.tensor('x', [None] + shape, trafo=True,
                  trafo_reduce_axes=axes, trafo_log=log),
        fx.tensor('m', [None, 2], trafo=False),
        fx.tensor('a', [None, 1], trafo=True),
        fx.tensor('b', [None, 1], trafo=True, exists=False)])
    batches, rows, rows_a = [], [], []
    for bi, n in enumerate(case['sizes']):
        bt = {}
        x = np.empty([n] + shape, dtype=object)
        for i in np.ndindex(*x.shape):
            nm = 'x%d_%s' % (bi, '_'.join(map(str, i)))
            if lgs[i[-1]]:
                x[i] = env.real(nm, lo=-0.9, smp=(-0.5, 30))
            else:
                x[i] = env.real(nm, smp=(-4, 4))
        rows.append(x)
        a = env.array('a%d' % bi, (n, 1), smp=(-4, 4))
        rows_a.append(np.asarray(a))
        bt = {'x': env.wrap(x), 'a': a,
              'm': env.array('m%d' % bi, (n, 2)), 'b': None}
        batches.append(tuple(bt[t.name] for t in ts.list))
    # one more batch than asked for: it must not be used
    extra = tuple(None if b is None else b + 1000. for b in batches[0])
    h = Handler(ts, batches + [extra])
    tr = trafo_mod.DataTransformer()
    conf, data, sub = tr._configure(
        data_handler=h, data_iterator_settings={'k': 1},
        num_batches=len(batches), float_precision='float64',
        norm_constant=1e-6)
    env.check(h.asked == [{'k': 1}], 'iterator settings are passed on')

    def stat(rows, lgs, axes, label):
        allr = np.concatenate(rows, axis=0)
        n = allr.shape[0]
        sh = allr.shape[1:]
        mean = np.empty(sh, dtype=object)
        std = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            v = [allr[(k,) + i] for k in range(n)]
            if lgs[i[-1]]:
                v = [env.fn('log', 1 + u) for u in v]
            mu = sum(v[1:], v[0]) / n
            q = [(u - mu) * (u - mu) for u in v]
            mean[i] = mu
            std[i] = env.fn('sqrt', sum(q[1:], q[0]) / n)
        ax = tuple(axes)
        cnt = int(np.prod([sh[k] for k in ax])) if ax else 1
        if ax:
            mean = mean.sum(axis=ax, keepdims=True) / cnt
            std = std.sum(axis=ax, keepdims=True) / cnt
        return mean, std

    for nm, r, lg, ax in (('x', rows, lgs, axes), ('a', rows_a, [False],
                                                   ())):
        mean, std = stat(r, lg, ax, nm)
        env.eq(data[nm + '_mean'], env.wrap(mean),
               'mean of {}'.format(nm))
        got, exp = np.asarray(data[nm + '_std']), std
        env.check(got.shape == exp.shape, 'shape of the std')
        for i in np.ndindex(*exp.shape):
            e = exp[i]
            z = env.eq_(e, 0) if env.sym else bool(e == 0)
            env.eq(got[i], env.ite(z, 1, e), 'std of {}'.format(nm))
            # what transform divides by is never zero
            env.check(got[i] > 0, 'std is positive')
    env.check('b_mean' not in data and 'm_mean' not in data,
              'only existing tensors with trafo get constants')
    env.check(data['tensors'] is ts or data['tensors'] == ts,
              'the tensors are kept with the constants')
    env.check(set(conf.check_values) == {'x_mean', 'x_std', 'a_mean',
                                         'a_std'},
              'check values cover every constant')


def C(shape, axes, log, sizes):
    return {'shape': shape, 'axes': axes, 'log': log, 'sizes': sizes}


CASES = [C([1], (), None, [1, 2]), C([2], (), None, [2]),
         C([2], (), True, [1, 1]), C([2], (), [False, True], [2]),
         C([2, 2], (0,), None, [2]), C([1], (), None, [1]),
         C([2, 1, 1], (0, 1), None, [1, 1]),
         C([2, 2], (0,), [True, False], [1, 1])]
TH = [C([1], (), None, [2, 1, 1]), C([2], (), None, [1, 2]),
      C([3], (), [True, False, True], [1, 1]),
      C([2, 2, 2], (0, 1), [False, True], [2])]
HARNESSES = [
    Harness('constants', body, CASES, [
        M + '_configure', M + '_perform_update_step',
        M + '_update_online_variance_vars'],
        'up to 3 events in up to 2 batches (thorough: 4 events, 3 batches), '
        'tensors of up to 4 (8) elements, every real value (log entries '
        '>= -0.9)', thorough_cases=TH, atol=1e-6),
]
ASSUMPTIONS = ['the data handler is a stub that replays symbolic batches',
               'float() around the check values is skipped symbolically']
