"""Asymmetric Gaussian: pdf, cdf and ppf are one distribution (np and tf)."""
import numpy as np
from symx.runner import Harness
from symx import tfx
from egenerator.utils import basis_functions as bf
import tensorflow as tf

M = 'egenerator.utils.basis_functions.'


def tfn(name):
    return tfx.Fn(lambda *a: getattr(bf, name)(*a), dtype='float64')


TF = {n: tfn('tf_' + n) for n in (
    'asymmetric_gauss', 'log_asymmetric_gauss', 'asymmetric_gauss_cdf',
    'asymmetric_gauss_ppf', 'gauss', 'log_gauss', 'rayleigh',
    'rayleigh_cdf')}


def call(env, case, name, *a):
    """Evaluate next to another, unrelated element of the same arrays."""
    pos = case.get('pos', 0)
    b = []
    for i, x in enumerate(a):
        d = env.real('decoy%d' % i, pos=True, smp=(0.3, 0.9))
        b.append(env.wrap([x, d] if pos == 0 else [d, x]))
    if case['impl'] == 'tf':
        y = TF[name](env, *b)
    else:
        y = getattr(bf, name)(*b)
    return y.at(pos) if hasattr(y, 'at') else np.asarray(y).reshape(-1)[pos]


def one(y):
    if hasattr(y, 'at'):
        return y.at(0)
    y = np.asarray(y)
    return y.reshape(-1)[0] if y.dtype != object or y.ndim else y.item()


def params(env):
    x = env.real('x', smp=(-5, 5))
    mu = env.real('mu', smp=(-2, 2))
    s = env.real('sigma', pos=True, smp=(0.3, 3))
    r = env.real('r', pos=True, smp=(0.3, 3))
    return x, mu, s, r


def pdf_def(env, case):
    x, mu, s, r = params(env)
    y = one(call(env, case, 'asymmetric_gauss', x, mu, s, r))
    z = (x - mu) / s
    # N * exp(-z^2/2) left of mu, N * exp(-z^2/(2 r^2)) right of it
    two_pi = env.pi() * 2
    n = 2 / (env.fn('sqrt', two_pi) * s * (1 + r))
    e = env.ite(x < mu, env.fn('exp', -z * z / 2),
                env.fn('exp', -z * z / (2 * r * r)))
    env.eq(y, n * e, 'pdf is the split normal density')
    env.check(y > 0 if env.sym else y >= 0, 'pdf is positive')
    ly = one(call(env, case, 'log_asymmetric_gauss', x, mu, s, r))
    env.eq(env.fn('exp', ly), y, 'log pdf is the log of the pdf')


def cdf_def(env, case):
    x, mu, s, r = params(env)
    x2 = env.real('x2', smp=(-5, 5))
    c = one(call(env, case, 'asymmetric_gauss_cdf', x, mu, s, r))
    env.check(c >= 0, 'cdf is not negative')
    env.check(c <= 1, 'cdf does not exceed one')
    c2 = one(call(env, case, 'asymmetric_gauss_cdf', x2, mu, s, r))
    env.check(env.implies(x <= x2, env.le_(c, c2)), 'cdf is monotone')
    m = one(call(env, case, 'asymmetric_gauss_cdf', mu, mu, s, r))
    env.eq(m, 1 / (1 + r), 'probability below the mode')


def ppf_inv(env, case):
    x, mu, s, r = params(env)
    q = env.real('q', lo=0.001, hi=0.999)
    p = one(call(env, case, 'asymmetric_gauss_ppf', q, mu, s, r))
    c = one(call(env, case, 'asymmetric_gauss_cdf', p, mu, s, r))
    env.eq(c, q, 'cdf(ppf(q)) = q')
    q2 = env.real('q2', lo=0.001, hi=0.999)
    p2 = one(call(env, case, 'asymmetric_gauss_ppf', q2, mu, s, r))
    env.check(env.implies(q <= q2, env.le_(p, p2)), 'ppf is monotone')


def deriv(env, case):
    """d cdf / dx = pdf (TensorFlow's own gradient of the real cdf)."""
    x, mu, s, r = params(env)
    env.assume(env.not_(x == mu))
    g = GRAD(env, x, mu, s, r)
    y = one(TF['asymmetric_gauss'](env, x, mu, s, r))
    env.eq(one(g), y, 'the pdf is the derivative of the cdf')


def _grad(x, mu, s, r):
    return tf.gradients(bf.tf_asymmetric_gauss_cdf(x, mu, s, r), x)[0]


GRAD = tfx.Fn(_grad, dtype='float64', eager=False)


def rayl(env, case):
    x = env.real('x', nonneg=True, smp=(0, 4))
    s = env.real('sigma', pos=True, smp=(0.3, 3))
    p = one(call(env, case, 'rayleigh', x, s))
    c = one(call(env, case, 'rayleigh_cdf', x, s))
    z = x / s
    env.eq(c, 1 - env.fn('exp', -z * z / 2), 'rayleigh cdf')
    env.eq(p, x / s / s * env.fn('exp', -z * z / 2), 'rayleigh pdf')
    if case['impl'] == 'tf':
        env.eq(one(RGRAD(env, x, s)), p, 'rayleigh pdf = cdf derivative')


RGRAD = tfx.Fn(lambda x, s: tf.gradients(bf.tf_rayleigh_cdf(x, s), x)[0],
               dtype='float64', eager=False)


def normal(env, case):
    x, mu, s, r = params(env)
    y = one(call(env, case, 'gauss', x, mu, s))
    z = (x - mu) / s
    env.eq(y, env.fn('exp', -z * z / 2) / (
        env.fn('sqrt', 2 * env.pi()) * s), 'normal density')
    ly = one(call(env, case, 'log_gauss', x, mu, s))
    env.eq(env.fn('exp', ly), y, 'log of the normal density')
    a = one(call(env, case, 'asymmetric_gauss', x, mu, s,
                 1.0 + 0 * x))
    env.eq(a, y, 'r = 1 is the symmetric Gaussian')


B = 'scalars: all real x, mu; sigma > 0; r > 0; q in [0.001, 0.999]'
IMPL = [{'impl': i, 'pos': k} for i in ('np', 'tf') for k in (0, 1)]
HARNESSES = [
    Harness('pdf', pdf_def, IMPL, [M + 'asymmetric_gauss',
                                   M + 'tf_asymmetric_gauss',
                                   M + 'log_asymmetric_gauss',
                                   M + 'tf_log_asymmetric_gauss'], B),
    Harness('cdf', cdf_def, IMPL, [M + 'asymmetric_gauss_cdf',
                                   M + 'tf_asymmetric_gauss_cdf'], B),
    Harness('ppf', ppf_inv, IMPL, [M + 'asymmetric_gauss_ppf',
                                   M + 'tf_asymmetric_gauss_ppf'], B),
    Harness('derivative', deriv, [{}], [M + 'tf_asymmetric_gauss_cdf'], B),
    Harness('rayleigh', rayl, IMPL, [M + 'rayleigh', M + 'rayleigh_cdf',
                                     M + 'tf_rayleigh',
                                     M + 'tf_rayleigh_cdf'], B),
    Harness('normal', normal, IMPL, [M + 'gauss', M + 'log_gauss',
                                     M + 'tf_gauss', M + 'tf_log_gauss'], B),
]
