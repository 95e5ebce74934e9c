"""Covariance matrices follow the scaling of the data transformation."""
import numpy as np
import tensorflow as tf
from symx.runner import Harness
from symx import tfx
from egenerator.data import trafo as trafo_mod
from egenerator.manager.reconstruction.modules import covariance as covm
from props import fx, P36
from props import recofx as rf

S = 'egenerator.manager.source.SourceManager.'
C = ('egenerator.manager.reconstruction.modules.covariance.'
     'CovarianceMatrix.')
M = 'egenerator.data.trafo.DataTransformer.'


def make(n, std, norm, log=None):
    ts = [fx.tensor('x', [None, n], trafo=True, trafo_log=log),
          fx.tensor('a', [None, n], trafo=True)]
    return fx.transformer(ts, {'x_mean': 0. * std + 1., 'x_std': std,
                               'a_mean': 0. * std, 'a_std': 0. * std + 5.},
                          norm=norm)


def body(env, case):
    n = case['n']
    std = env.array('std', n, nonneg=True, smp=(0.2, 2))
    norm = env.real('norm', pos=True, smp=(1e-6, 0.1))
    v = env.array('v', (n, n))
    want = np.empty((n, n), dtype=object)
    s, m = np.asarray(std), np.asarray(v)
    for i in range(n):
        for j in range(n):
            want[i, j] = m[i, j] * (norm + s[i]) * (norm + s[j])
    env.patch_np(trafo_mod)
    v0 = v.copy()
    c = make(n, std, norm, case['log']).inverse_transform_cov(v, 'x')
    env.eq(v, v0, 'the input is left alone')
    env.eq(c, env.wrap(want), 'cov[i,j] scales with std[i] * std[j]')
    # it is the covariance of the inverse transformed parameters:
    # inverse_transform without bias is x -> (norm + std) x
    if case['log'] is None:
        z = env.array('z', (2, n))
        t = make(n, std, norm).inverse_transform(z, 'x',
                                                 bias_correction=False)
        a, b = np.asarray(t), np.asarray(z)
        for i in range(n):
            for j in range(n):
                env.eq(a[0, i] * a[1, j] * 1,
                       b[0, i] * b[1, j] * (norm + s[i]) * (norm + s[j]),
                       'same scaling as inverse_transform')


def body_tf(env, case):
    """TensorFlow input, transformation data as stored (NumPy)."""
    n = case['n']
    v = env.array('v', (n, n))
    std = np.array([0.5, 2., 0., 1.25][:n])
    norm = 0.25

    f = tfx.Fn(lambda v: make(n, std, norm, case['log'])
               .inverse_transform_cov(v, 'x'), dtype='float64')
    c = f(env, v)
    c = c.arr() if hasattr(c, 'arr') else c
    want = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            want[i, j] = np.asarray(v)[i, j] * (norm + std[i]) * (
                norm + std[j])
    env.eq(c, env.wrap(want), 'cov[i,j] scales with std[i] * std[j] (TF)')


def curvature(env, case):
    """hessian = second derivatives of the loss; OPG = sum of outer products
    of the per-term gradients (quadratic probe loss, all parameters)."""
    mean, std, norm, y, seed, w, u, batch = P36.inputs(env, case)
    n = len(case['fit'])
    if case['what'] == 'hess':
        env.patch(tf, 'hessians', unrolled_hessians)
    F = tfx.Fn(P36.make(case, case['what']), dtype='float64', eager=False)
    got = F(env, y, seed, mean, std, norm, w, u, *batch)
    ps, ds = P36.full_params(env, case, np.asarray(y), np.asarray(seed),
                             np.asarray(mean), np.asarray(std), norm)
    p, d = ps[0], ds[0]
    w, u = np.asarray(w), np.asarray(u)
    lgs = [bool(case['log'])] * n if not isinstance(
        case['log'], list) else case['log']
    for i in range(n):
        for j in range(n):
            if case['what'] == 'hess':
                h = 0
                for k in range(len(w)):
                    h = h + (u[k][i][j] + u[k][j][i]) * d[i] * d[j]
                if i == j and case['trafo'] and lgs[i]:
                    # d2p/dy2 = (norm + std)^2 exp(.)
                    g = P36.derivs(env, ps, w, u, i)[0]
                    h = h + g * d[i] * (norm + np.asarray(std)[i])
                env.eq(P36.at(got, i, j), h, 'hessian of the loss')
            else:
                # terms: sum(aux) (no parameters), lin, quad
                o = 0
                for t in ('lin', 'quad'):
                    gi, gj = [gradient(w, u, p, q, t) * d[q]
                              for q in (i, j)]
                    o = o + gi * gj
                env.eq(P36.at(got, i, j), o,
                       'OPG = sum of outer products of gradients')


def gradient(w, u, p, q, t):
    g = 0
    for k in range(len(w)):
        if t == 'lin':
            g = g + w[k][q]
        else:
            for j in range(len(p)):
                g = g + (u[k][j][q] + u[k][q][j]) * p[j]
    return g


def unrolled_hessians(loss, xs, **kw):
    """tf.hessians without its while loop (same definition, unrolled)."""
    x = xs
    g = tf.reshape(tf.gradients(loss, x)[0], [-1])
    rows = []
    for i in range(x.shape[1]):
        r = tf.gradients(g[i], x)[0]
        rows.append(tf.zeros_like(x) if r is None else r)
    h = tf.stack(rows, axis=0)
    return [tf.reshape(h, tf.concat([tf.shape(x), tf.shape(x)], 0))]


class Num(object):
    """What an eager tf function returns."""

    def __init__(self, a):
        self.a = a

    def numpy(self):
        return self.a


class Cache(object):
    def __init__(self, fns):
        self.fns, self.asked = fns, []

    def get(self, name, settings):
        self.asked.append((name, settings))
        return self.fns[name]


class ResultObj(object):
    pass


def module(env, case):
    """The CovarianceMatrix module around given hessian and OPG."""
    env.patch_np(covm, trafo_mod)
    n = case['n']
    sing = case.get('singular')
    H = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(i + 1):
            H[i, j] = H[j, i] = env.real('h_%d_%d' % (i, j), smp=(0.5, 2))
    if n == 1:
        det = H[0, 0]
    else:
        det = H[0, 0] * H[1, 1] - H[0, 1] * H[1, 0]
    env.assume(env.or_(det >= 0.01, det <= -0.01))
    G = env.array('g', (n, n))
    V = env.array('hinv', (n, n))
    std = env.array('std', n, nonneg=True, smp=(0.2, 2))
    norm = env.real('norm', pos=True, smp=(1e-6, 0.1))
    tr = rf.trafo(n, 0. * std, std, norm, case['log'])
    m = rf.manager(n, 1, tr)
    calls = []
    x, xt, batch = (env.array('res', (1, n)), env.array('rest', (1, n)),
                    ['batch'])

    def hess(parameters_trafo, data_batch, seed):
        calls.append(('h', parameters_trafo, data_batch, seed))
        return Num(env.wrap(H))

    def opg(parameters_trafo, data_batch, seed):
        calls.append(('g', parameters_trafo, data_batch, seed))
        return Num(G)
    cache = Cache({'hessian_function': hess, 'opg_estimate_function': opg})
    mod = covm.CovarianceMatrix(
        m, 'loss', cache, [True] * n, 'reco',
        minimize_in_trafo_space=case['trafo'])
    for name, s in cache.asked:
        env.check(s['minimize_in_trafo_space'] is case['trafo'] and
                  s['fit_paramater_list'] == [True] * n and
                  s['loss_module'] == 'loss',
                  'curvature is computed in the space of the fit')
    obj = ResultObj()
    if case['hinv']:
        obj.hess_inv = V
    res = mod.execute(batch, {'reco': {
        'result': x, 'result_trafo': xt, 'result_object': obj}})
    env.check(len(calls) == 2, 'hessian and OPG are evaluated')
    for c in calls:
        env.check(c[1] is xt and c[2] is batch and c[3] is x,
                  'evaluated at the best fit')
    # inverse by cofactors
    if n == 1:
        C = [[1 / det]]
    else:
        C = [[H[1, 1] / det, -H[0, 1] / det],
             [-H[1, 0] / det, H[0, 0] / det]]
    g, v, s = np.asarray(G), np.asarray(V), np.asarray(std)

    def sand(a):
        return [[sum(a[i][k] * g[k, l] * a[l][j] for k in range(n)
                     for l in range(n)) for j in range(n)]
                for i in range(n)]

    def phys(a):
        if not case['trafo']:
            return a
        return [[a[i][j] * (norm + s[i]) * (norm + s[j])
                 for j in range(n)] for i in range(n)]
    want = {'cov_trafo': C, 'cov': phys(C), 'cov_sand_trafo': sand(C),
            'cov_sand': phys(sand(C))}
    if case['hinv']:
        vv = [[v[i, j] for j in range(n)] for i in range(n)]
        want.update({'cov_fit_trafo': vv, 'cov_fit': phys(vv),
                     'cov_sand_fit_trafo': sand(vv),
                     'cov_sand_fit': phys(sand(vv))})
    env.check(set(res) == set(want), 'the documented set of matrices')
    for k in sorted(want):
        if k in res:
            env.eq(res[k], env.wrap(np.array(want[k], dtype=object)), k)


def partial(env, case):
    """Subsets of parameters are refused, not silently mishandled."""
    n = 3
    bad = [f for f in rf.fits(n) if not all(f)]
    k = env.choose('mask', 0, len(bad) - 1)
    env.raises(NotImplementedError, lambda: covm.CovarianceMatrix(
        None, None, None, bad[k], 'reco'), 'partial fits are refused')


B = ('n x n matrices, n <= 4 (thorough 6); every real matrix, std >= 0 and '
     'norm > 0 (TF branch: every matrix, four fixed stds)')
LG = [None, True]
HARNESSES = [
    Harness('numpy', body, [{'n': n, 'impl': 'np', 'log': lg}
                            for n in (1, 2, 4) for lg in LG],
            [M + 'inverse_transform_cov', M + 'inverse_transform'], B,
            thorough_cases=[{'n': 6, 'impl': 'np', 'log': None}]),
    Harness('tensorflow', body_tf, [{'n': n, 'log': lg} for n in (1, 2, 4)
                                    for lg in LG],
            [M + 'inverse_transform_cov'], B),
    Harness('curvature', curvature, [
        dict(what=w, fit=[True] * 3, **k) for w in ('hess', 'opg')
        for k in ({'log': None, 'trafo': True}, {'log': True, 'trafo': True},
                  {'log': None, 'trafo': False},
                  {'log': None, 'trafo': True, 'models': 2})], [
            S + 'get_hessian_function', S + 'get_opg_estimate_function'],
        '3 parameters, 1 event, up to 2 models; quadratic probe loss with '
        'symbolic coefficients'),
    Harness('module', module, [
        {'n': n, 'trafo': t, 'hinv': h, 'log': None} for n in (1, 2)
        for t in (True, False) for h in (True, False)], [
            C + '__init__', C + 'execute', M + 'inverse_transform_cov'],
        'up to 2 parameters, every symmetric hessian with |det| >= 0.01, '
        'every OPG matrix and optimizer inverse', rtol=1e-5),
    Harness('partial', partial, [{}], [C + '__init__'],
            'all 6 partial masks of 3 parameters'),
]
ASSUMPTIONS = ['tf.hessians is replaced by an unrolled equivalent; the '
               'loss is a symbolic quadratic form; matrix inversion is '
               'encoded by cofactors (non-singular hessians)']
