"""Negative binomial: log density, recurrence and sampling parameters."""
import numpy as np
from symx.runner import Harness
from symx import tfx
from egenerator.utils import basis_functions as bf

M = 'egenerator.utils.basis_functions.'
TF = {n: tfx.Fn((lambda n: lambda x, m, a: bf.tf_log_negative_binomial(
    x, m, a, add_normalization_term=n))(n), dtype='float64')
    for n in (True, False)}


def call(env, case, x, mu, alpha):
    pos, b = case['pos'], []
    for i, v in enumerate((x, mu, alpha)):
        d = env.real('decoy%d' % i, pos=True, smp=(0.3, 0.9))
        b.append(env.wrap([v, d] if pos == 0 else [d, v]))
    if case['impl'] == 'tf':
        return TF[case['norm']](env, *b).at(pos) if env.sym else \
            np.asarray(TF[case['norm']](env, *b))[pos]
    y = bf.log_negative_binomial(*b, add_normalization_term=case['norm'])
    return np.asarray(y)[pos]


def params(env):
    mu = env.real('mu', pos=True, smp=(0.1, 20))
    alpha = env.real('alpha', pos=True, smp=(0.05, 2))
    return mu, alpha


def density(env, case):
    mu, alpha = params(env)
    x = env.real('x', nonneg=True, smp=(0, 10))
    y = call(env, case, x, mu, alpha)
    lg, log = (lambda v: env.fn('lgamma', v)), (lambda v: env.fn('log', v))
    want = lg(x + 1 / alpha) - lg(1 / alpha) - log(1 + alpha * mu) / alpha \
        + x * (log(alpha * mu) - log(1 + alpha * mu))
    if case['norm']:
        want = want - lg(x + 1)
    env.eq(y, want, 'documented log density')


def zero(env, case):
    """The probability of no photon."""
    mu, alpha = params(env)
    p0 = call(env, case, env.wrap([0.])[0], mu, alpha)
    env.eq(p0, -env.fn('log', 1 + alpha * mu) / alpha, 'log p(0)')


def sampling(env, case):
    """The generator gets parameters with the requested mean and variance."""
    mu = env.real('mu', pos=True, smp=(0.1, 20))
    if case['alpha']:
        alpha = env.real('alpha', pos=True, smp=(0.05, 2))
        var, arg = mu + alpha * mu * mu, alpha
    else:
        var = arg = env.real('var', pos=True, smp=(30, 50))
        env.assume(var > mu)
    got = []

    class Rng(object):
        def negative_binomial(self, n, p, size=None):
            got.append((n, p, size))
            return 'sample'
    out = bf.sample_from_negative_binomial(
        Rng(), mu, arg, param_is_alpha=case['alpha'], size=case['size'])
    env.check(out == 'sample' and len(got) == 1 and got[0][2] == case['size'],
              'one draw of the requested size')
    n, p, _ = got[0]
    env.check(p > 0, 'success probability is positive')
    env.check(p < 1, 'success probability is below one')
    env.eq(p * var, mu, 'mean / variance = p')
    # the code regularises with 1e-6 in the denominator
    env.eq(n * (1 - p) * (var - mu + 1e-6), p * mu * (var - mu),
           'mean of the draw is mu (up to the regularisation)')


B = 'all real x, mu > 0, alpha > 0 (variance > mean)'
CS = [{'impl': i, 'norm': n, 'pos': k} for i in ('np', 'tf')
      for n in (True, False) for k in (0, 1)]
F = [M + 'log_negative_binomial', M + 'tf_log_negative_binomial']
HARNESSES = [
    Harness('density', density, CS, F, B),
    Harness('zero', zero, CS, F, B),
    Harness('sampling', sampling, [{'alpha': a, 'size': s} for a in
                                   (True, False) for s in (None, [2, 3])],
            [M + 'sample_from_negative_binomial'], B),
]
ASSUMPTIONS = ['the random generator is a stub that records the parameters of '
               'the draw']
