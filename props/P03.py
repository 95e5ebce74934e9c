"""DataTransformer: transform and inverse_transform invert each other."""
import itertools
import numpy as np
import tensorflow as tf
from symx.runner import Harness
from symx import tfx
from egenerator.data import trafo as trafo_mod
from props import fx

M = 'egenerator.data.trafo.DataTransformer.'
SHAPES = {
    'vec3': ([None, 3], [3], [3]),
    'vec1': ([None, 1], [1], [1]),
    # reduced over the DOM axes: one mean/std per bin
    'dom': ([None, 2, 2, 3], [1, 1, 3], [1, 1, 3]),
    'scalar': ([None, 2, 3], [1, 1], [1, 1]),
}


def make(case, mean, std, norm, dt=np.float64, tdt=tf.float64):
    shape, _, _ = SHAPES[case['shape']]
    t = fx.tensor('x', shape, trafo=True, trafo_log=case['log'])
    other = fx.tensor('a', [None, 3], trafo=True)
    return fx.transformer([t, other], {
        'x_mean': mean, 'x_std': std, 'a_mean': 0. * mean + 7.,
        'a_std': 0. * std + 3.}, norm=norm, np_dtype=dt, tf_dtype=tdt)


def setup(env, case):
    shape, ms, ss = SHAPES[case['shape']]
    n = case['n']
    lg = case['log']
    k = shape[-1]
    lgs = [bool(lg)] * k if not isinstance(lg, list) else lg
    mean = env.array('mean', ms, smp=(-2, 2))
    std = env.array('std', ss, nonneg=True, smp=(0.2, 2))
    norm = env.real('norm', pos=True, smp=(1e-6, 0.1))
    full = [n] + shape[1:]
    x = np.empty(full, dtype=object)
    for i in np.ndindex(*full):
        nm = 'x_' + '_'.join(map(str, i))
        if lgs[i[-1]]:
            # the domain of log(1 + x), within the clip of the TF branch
            x[i] = env.real(nm, lo=-0.999, smp=(-0.9, 20))
            u = env.fn('log', 1 + x[i])
            env.assume(env.and_(u <= 60, u >= -60))
        else:
            x[i] = env.real(nm, smp=(-5, 5))
    return mean, std, norm, env.wrap(x), lgs


def copy(x):
    return x.copy()


def expected(env, case, x, mean, std, norm, lgs, bias):
    """The documented map, element by element."""
    out = np.empty(x.shape, dtype=object)
    xr, m, s = np.asarray(x), np.asarray(mean), np.asarray(std)
    mb = np.broadcast_to(m, x.shape)
    sb = np.broadcast_to(s, x.shape)
    for i in np.ndindex(*x.shape):
        v = xr[i]
        if bias and lgs[i[-1]]:
            v = env.fn('log', 1 + v)
        if bias:
            v = v - mb[i]
        out[i] = v / (norm + sb[i])
    return env.wrap(out)


def np_body(env, case):
    env.patch_np(trafo_mod)
    mean, std, norm, x, lgs = setup(env, case)
    tr = make(case, mean, std, norm)
    bias = case['bias']
    x0 = copy(x)
    y = tr.transform(x, 'x', bias_correction=bias)
    env.eq(x, x0, 'transform leaves its input alone')
    env.eq(y, expected(env, case, x0, mean, std, norm, lgs, bias),
           'transform is the documented map')
    y0 = copy(y)
    z = tr.inverse_transform(y, 'x', bias_correction=bias)
    env.eq(y, y0, 'inverse leaves its input alone')
    env.eq(z, x0, 'inverse_transform(transform(x)) = x')


def inv_np_body(env, case):
    """transform(inverse_transform(y)) = y for any y."""
    env.patch_np(trafo_mod)
    mean, std, norm, x, lgs = setup(env, dict(case, log=None))
    tr = make(case, mean, std, norm)
    bias = case['bias']
    # keep the log entries inside the TF clip
    y = x
    z = tr.inverse_transform(y, 'x', bias_correction=bias)
    env.eq(tr.transform(z, 'x', bias_correction=bias), y,
           'transform(inverse_transform(y)) = y')


def tf_fn(case, what, f32=False):
    def f(x, mean, std, norm):
        tr = make(case, mean, std, norm)
        if what == 'fwd':
            return tr.transform(x, 'x', bias_correction=case['bias'])
        if what == 'inv':
            return tr.inverse_transform(x, 'x',
                                        bias_correction=case['bias'])
        y = tr.transform(x, 'x', bias_correction=case['bias'])
        return tr.inverse_transform(y, 'x', bias_correction=case['bias'])
    return tfx.Fn(f, dtype='float64')


def tf_body(env, case):
    mean, std, norm, x, lgs = setup(env, case)
    bias = case['bias']
    y = tf_fn(case, 'fwd')(env, x, mean, std, norm)
    env.eq(y.arr() if hasattr(y, 'arr') else y,
           expected(env, case, x, mean, std, norm, lgs, bias),
           'TF transform is the documented map')
    z = tf_fn(case, 'rt')(env, x, mean, std, norm)
    env.eq(z.arr() if hasattr(z, 'arr') else z, x,
           'TF inverse_transform(transform(x)) = x')
    # NumPy and TensorFlow give the same inverse of any point
    env.patch_np(trafo_mod)
    tr = make(case, mean, std, norm)
    v = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        v[i] = env.real('y_' + '_'.join(map(str, i)), smp=(-5, 5))
    v = env.wrap(v)
    if bias and any(lgs):
        mb = np.broadcast_to(np.asarray(mean), v.shape)
        sb = np.broadcast_to(np.asarray(std), v.shape)
        for i in np.ndindex(*v.shape):
            if lgs[i[-1]]:
                u = np.asarray(v)[i] * (norm + sb[i]) + mb[i]
                env.assume(env.and_(u <= 60, u >= -60))
    a = tr.inverse_transform(v, 'x', bias_correction=bias)
    env.unpatch()
    b = tf_fn(case, 'inv')(env, v, mean, std, norm)
    env.eq(b.arr() if hasattr(b, 'arr') else b, a,
           'NumPy and TF agree on the inverse')


def guard_body(env, case):
    """Unknown tensors and wrong shapes are refused."""
    env.patch_np(trafo_mod)
    case = {'shape': 'vec3', 'log': None}
    mean, std, norm, x, lgs = setup(env, dict(case, n=1))
    tr = make(case, mean, std, norm)
    for f in (tr.transform, tr.inverse_transform):
        env.raises(ValueError, lambda: f(x, 'nope'), 'unknown tensor refused')
        env.raises(ValueError, lambda: f(x[:, :2], 'x'),
                   'wrong shape refused')
        env.raises(ValueError, lambda: f(x.reshape((1, 3, 1)), 'x'),
                   'wrong rank refused')
    t2 = trafo_mod.DataTransformer()
    env.raises(ValueError, lambda: t2.transform(x, 'x'),
               'an unconfigured transformer refuses to work')


LOGS = [None, True, False, [True, False, True], [False, False, True]]
CASES = [{'shape': 'vec3', 'n': 2, 'log': l, 'bias': b}
         for l in LOGS for b in (True, False)]
CASES += [{'shape': 'dom', 'n': 1, 'log': l, 'bias': True}
          for l in (None, [False, True, False])]
CASES += [{'shape': 'scalar', 'n': 2, 'log': None, 'bias': True},
          {'shape': 'vec1', 'n': 2, 'log': True, 'bias': True}]
TH = [{'shape': 'vec3', 'n': 3, 'log': list(l), 'bias': True}
      for l in itertools.product([False, True], repeat=3)]
TH += [{'shape': 'dom', 'n': 2, 'log': [True, True, False], 'bias': b}
       for b in (True, False)]
B = ('up to 2 (thorough 3) rows, tensors [n,3], [n,1], [n,2,2,3], [n,2,3]; '
     'all real means, stds >= 0, norm constants > 0; log entries x '
     'with x >= -0.999 and |log(1+x)| <= 60; TF inverse within its clip at +-60')
HARNESSES = [
    Harness('numpy', np_body, CASES, [M + 'transform',
            M + 'inverse_transform', M + '_check_settings'], B,
            thorough_cases=TH),
    Harness('numpy_inverse', inv_np_body,
            [c for c in CASES if c['shape'] == 'vec3' and c['bias']],
            [M + 'transform', M + 'inverse_transform'], B,
            atol=1e-6, rtol=1e-5),
    Harness('tensorflow', tf_body, CASES, [M + 'transform',
            M + 'inverse_transform', M + '_check_settings'], B,
            thorough_cases=TH),
    Harness('guards', guard_body, [{}], [M + '_check_settings'], B),
]
