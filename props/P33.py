"""Circularized angular uncertainty: scan around the best fit."""
import inspect
import types
import numpy as np
from symx import npx
from symx.runner import Harness
from props import recofx as rf
from props.P31 import Num
from props.P34 import Arr, NpWith, Rng, Tf
from egenerator.data import trafo as trafo_mod
from egenerator.manager.reconstruction.modules import opening_angle as oa
from egenerator.manager.reconstruction.tray import FunctionCache
from egenerator.utils import angles as real_angles

A = np.asarray
SIG = inspect.signature(real_angles.get_delta_psi_vector)


class Angles(object):
    """Directions at an opening angle are arbitrary (P17)."""

    def __init__(self, env):
        self.env, self.calls = env, []

    def get_delta_psi_vector(self, *a, **k):
        b = SIG.bind(*a, **k)
        b.apply_defaults()
        i, q = len(self.calls), b.arguments
        n = len(q['delta_psi'])
        zen = self.env.array('zen%d' % i, (n,), smp=(0, 3))
        azi = self.env.array('azi%d' % i, (n,), smp=(0, 6))
        self.calls.append((dict(q), zen.copy(), azi.copy()))
        return zen, azi


class Chi2(object):
    """The distribution function is arbitrary, between 0 and 1."""

    def __init__(self, env):
        self.env, self.calls = env, []

    def __call__(self, df):
        def cdf(x):
            i = len(self.calls)
            shape = np.shape(A(x))
            v = self.env.array('cdf%d' % i, shape, lo=0., hi=1.)
            v = v if shape else A(v)[()]
            self.calls.append((df, x, v))
            return v
        return types.SimpleNamespace(cdf=cdf)

    def cdf(self, x, df):
        return self(df).cdf(x)


class Man(object):
    def __init__(self, env, tr, names, mean, std, norm, mapping):
        self.env, self.data_trafo, self.names = env, tr, names
        self.mean, self.std, self.norm = mean, std, norm
        self.recos, self.losses = [], []
        self.models = [types.SimpleNamespace(get_index=names.index)]
        self.configuration = types.SimpleNamespace(config={'config': {
            'I3ParticleMapping': mapping}})
        self.data_handler = types.SimpleNamespace(
            get_data_set_signature=lambda: ('sig',))

    def full(self, s, x, seed):
        x = A(x)
        self.env.check(x.shape == (1, sum(s['fit_paramater_list'])),
                       'number of fitted parameters')
        out, c = [], 0
        for i in range(len(self.names)):
            if s['fit_paramater_list'][i]:
                v = x[0, c]
                c += 1
                if s['minimize_in_trafo_space']:
                    v = v * (self.norm + self.std[i]) + self.mean[i]
            else:
                v = A(seed.a if isinstance(seed, Arr) else seed)[0, i]
            out.append(v)
        return out

    def get_parameter_loss_function(self, **s):
        def f(parameters_trafo, data_batch, seed=None):
            v = self.env.real('loss%d' % len(self.losses))
            self.losses.append((self.full(s, parameters_trafo, seed),
                                data_batch, v))
            return Num(v)
        f.__name__ = 'parameter_loss_function'
        return f

    def get_loss_and_gradients_function(self, **s):
        def f(parameters_trafo, data_batch, seed=None):
            return self.full(s, parameters_trafo, seed), data_batch
        f.__name__ = 'loss_and_gradients_function'
        return f

    def reconstruct_events(self, batch, loss_module,
                           loss_and_gradients_function, fit_paramater_list,
                           minimize_in_trafo_space=True, seed='x_seed',
                           parameter_tensor_name='x_parameters', **k):
        env, i = self.env, len(self.recos)
        best = env.array('best%d' % i, (1, sum(fit_paramater_list)))
        s = dict(fit_paramater_list=fit_paramater_list,
                 minimize_in_trafo_space=minimize_in_trafo_space)
        v, b = loss_and_gradients_function(best, batch, seed)
        env.eq(env.wrap(np.array(v)), env.wrap(np.array(self.full(
            s, best, seed))), 'objective')
        self.recos.append((s, batch, A(seed).copy(), best, k))
        return best, 'object'


def scan(env, case, before=None):
    """Fits at fixed directions around the best fit."""
    cache = FunctionCache()
    ang, chi, rng = Angles(env), Chi2(env), Rng(env)
    np_ = npx.symnp if env.sym else npx.concnp
    env.patch_np(trafo_mod)
    env.patch(oa, 'np', NpWith(np_, types.SimpleNamespace(
        RandomState=lambda s: rng)))
    env.patch(oa, 'tf', Tf())
    env.patch(oa, 'angles', ang)
    env.patch(oa, 'chi2', chi)
    env.patch(oa, 'print', lambda *a: None)
    names = [['x', 'zen', 'azi', 'e'][i] for i in case['order']]
    n, trafo, m = len(names), case['trafo'], case['points']
    iz, ia = names.index('zen'), names.index('azi')
    mean = env.array('mean', (n,))
    std = env.array('std', (n,), pos=True, smp=(.5, 2))
    norm = env.real('norm', pos=True, smp=(.01, .1))
    tr = rf.trafo(n, mean, std, norm, [False] * n)
    man = Man(env, tr, names, A(mean), A(std), norm, {
        'zenith': 'zen', 'azimuth': 'azi', 'x': 'x'})
    fit = [True] * n
    if before is not None:
        before(man, cache)
    mod = oa.CircularizedAngularUncertainty(
        man, 'lm', cache, fit, 'reco',
        covariance_key='cov' if case.get('cov') else None,
        minimize_in_trafo_space=trafo, num_fit_points=m,
        scipy_optimizer_settings={'method': 'X'})
    env.check(fit == [True] * n, 'settings are left alone')
    point = env.array('point', (1, n))
    s = dict(fit_paramater_list=[True] * n, minimize_in_trafo_space=trafo)
    best = man.full(s, point, None)
    batch = ('a', 'b')
    res = {'reco': {'result': env.wrap(np.array([best])),
                    'result_trafo': point, 'result_object': None}}
    sz, sa = env.real('sz', pos=True, smp=(.01, 1)), env.real(
        'sa', pos=True, smp=(.01, 1))
    if case.get('cov'):
        cov = env.array('cov', (n, n))
        A(cov)[iz, iz] = sz * sz
        A(cov)[ia, ia] = sa * sa
        for i in range(n):
            if i not in (iz, ia):
                A(cov)[i, i] = env.real('var%d' % i, pos=True)
        res['cov'] = {'cov_sand': cov, 'cov': 'other'}
    est = []

    def estimate(delta_psi, delta_loss, x0=5., ddof=5):
        v = env.real('estimate', nonneg=True, smp=(0, 90))
        est.append((delta_psi, delta_loss, ddof, v))
        return v
    env.patch(mod, 'get_circularized_estimate', estimate)
    kept = A(res['reco']['result']).copy()
    out = mod.execute(batch, res)
    env.eq(res['reco']['result'], env.wrap(kept), 'best fit is kept')
    # the reference is the loss of the best fit
    hyp, b, ref = man.losses[0]
    env.eq(env.wrap(np.array(hyp)), env.wrap(np.array(best)),
           'loss of the best fit')
    env.check(b is batch, 'event')
    # every scanned point
    pts, dl = [], []
    for q, zen, azi in ang.calls:
        env.eq(A(q['zenith']).reshape(-1)[0], best[iz], 'zenith')
        env.eq(A(q['azimuth']).reshape(-1)[0], best[ia], 'azimuth')
        env.check(q['random_service'] is rng and q['return_angles'],
                  'directions')
        f = 1. if q['is_degree'] else 180. / env.pi()
        for d, z, a in zip(q['delta_psi'], A(zen), A(azi)):
            pts.append((d * f, z, a))
    env.check(len(man.losses) == len(pts) + 1 and len(man.recos) == len(pts),
              'one fit per direction')
    for (d, z, a), (hyp, b, l), (st, rb, seed, x, k) in zip(
            pts, man.losses[1:], man.recos):
        env.check([bool(v) for v in st['fit_paramater_list']] == [
            i not in (iz, ia) for i in range(n)],
            'the direction is not fitted')
        env.check(st['minimize_in_trafo_space'] is trafo and
                  k.get('method') == 'X', 'settings of the fit')
        env.check(tuple(rb) == batch and tuple(b) == batch, 'event')
        want = [v for v in best]
        want[iz], want[ia] = z, a
        env.eq(env.wrap(seed[0]), env.wrap(np.array(want)), 'seed')
        env.eq(env.wrap(np.array(hyp)), env.wrap(np.array(man.full(
            st, x, env.wrap(np.array([want]))))), 'hypothesis of the loss')
        dl.append(l - ref)
    # range of the scan
    deg = 180. / env.pi()
    if case.get('cov'):
        env.check(len(pts) == m, 'number of points')
        sn = env.fn('sin', best[iz])
        up = 2. * env.fn('sqrt', (sz * sz + sa * sa * sn * sn) / 2.) * deg
        up = env.ite(up < 89.9, up, 89.9)
    else:
        steps = len(pts) - m
        env.check(steps == len(chi.calls), 'bisection')
        lo, hi, c = 0., 90., None
        for (df, x, v), (d, z, a), l in zip(chi.calls, pts, dl):
            c = (lo + hi) / 2.
            env.eq(d, c, 'bisection')
            env.check(df == n - 2, 'degrees of freedom')
            env.eq(A(x).reshape(-1)[0], 2. * l, 'test statistic')
            if bool(A(v).reshape(-1)[0] > .95):
                hi = c
            else:
                lo = c
        up = c
    for i, (d, z, a) in enumerate(pts[-m:]):
        env.eq(d, up * i / (m - 1.), 'points of the scan')
    # estimate
    env.check(len(est) == 1, 'estimate')
    psi, dls, ddof, v = est[0]
    env.check(ddof == n - 2, 'degrees of freedom')
    env.eq(psi, env.wrap(np.array([p[0] for p in pts[-m:]])),
           'opening angles of the estimate')
    env.eq(dls, env.wrap(np.array(dl[-m:])), 'losses of the estimate')
    env.eq(out['circular_unc'] * deg, v, 'result in radians')
    env.eq(out['circular_unc_deg'], v, 'result in degrees')
    env.eq(out['delta_psi'], psi, 'opening angles')
    env.eq(out['delta_loss'], env.wrap(np.array(dl[-m:])), 'losses')


def estimate(env, case):
    """The estimate is a non-negative minimum of the objective."""
    chi = Chi2(env)
    env.patch(oa, 'chi2', chi)
    from egenerator.utils import basis_functions as bf
    env.patch_np(oa, bf)
    m, df = case['points'], case['ddof']
    psi = env.array('psi', (m,), nonneg=True, smp=(0, 20))
    dl = env.array('loss', (m,), smp=(-1, 10))
    calls = []

    def minimize(fun, x0, args=(), **k):
        x = [env.real('probe', pos=True, smp=(.5, 20)),
             env.real('best', smp=(-20, 20))]
        env.assume(env.not_(env.eq_(x[1], 0.)))
        calls.append((x0, x, [fun(env.wrap(np.array([v])), *args)
                              for v in x]))
        return types.SimpleNamespace(x=env.wrap(np.array([x[1]])))
    env.patch(oa, 'optimize', types.SimpleNamespace(minimize=minimize))
    x0 = env.real('x0', pos=True, smp=(1, 10))
    got = oa.CircularizedAngularUncertainty.get_circularized_estimate(
        None, psi, dl, x0=x0, ddof=df)
    env.check(len(calls) == 1 and len(chi.calls) == 1, 'one minimization')
    start, xs, vals = calls[0]
    env.eq(A(start).reshape(-1)[0], x0, 'start')
    d, ts, c = chi.calls[0]
    env.check(d == df, 'degrees of freedom')
    env.eq(ts, env.wrap(2. * A(dl)), 'test statistic')

    def objective(s):
        t = 0.
        for p, q in zip(A(psi), A(c)):
            r = q - (1. - env.fn('exp', -.5 * p * p / (s * s)))
            t = t + r * r
        return t
    for x, v in zip(xs, vals):
        env.eq(A(v).reshape(-1)[0], objective(x), 'objective')
    env.le(0., got, 'the uncertainty is not negative')
    env.check(env.or_(env.eq_(got, xs[1]), env.eq_(got, -xs[1])),
              'minimum of the objective')


E = 'egenerator.manager.reconstruction.modules.opening_angle.' \
    'CircularizedAngularUncertainty.'
HARNESSES = [
    Harness('scan', scan, [
        dict(order=[0, 1, 2, 3], trafo=True, points=3, cov=1),
        dict(order=[2, 3, 1], trafo=False, points=4, cov=1),
        dict(order=[1, 0, 2], trafo=True, points=3)],
        [E + '__init__', E + 'execute'], '4 parameters, up to 4 points',
        thorough_cases=[dict(order=[3, 2, 0, 1], trafo=True, points=10,
                             cov=1)]),
    Harness('estimate', estimate, [dict(points=2, ddof=5),
                                   dict(points=3, ddof=9)],
            [E + 'get_circularized_estimate'], 'up to 3 (6) points',
            thorough_cases=[dict(points=6, ddof=3)])]
ASSUMPTIONS = ['directions at an opening angle (P17), the chi-square '
               'distribution, losses and results of optimizers are arbitrary']
