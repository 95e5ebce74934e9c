"""A reconstruction reports the optimizer's point inside the full hypothesis."""
import numpy as np
import tensorflow as tf
from symx.runner import Harness
from symx import tfx
from egenerator.data import trafo as trafo_mod
from egenerator.manager import source as srcm
from egenerator.manager.reconstruction.modules import reconstruction as rec
from egenerator.manager.reconstruction.modules.utils import trafo as rtr
from props import fx, P36
from props import recofx as rf

S = 'egenerator.manager.source.SourceManager.'
R = 'egenerator.manager.reconstruction.modules.'


class Num(object):
    def __init__(self, a):
        self.a = a

    def numpy(self):
        return self.a


class Scal(object):
    """A 0-d result with the few methods the code uses."""

    def __init__(self, v):
        self.v = v

    def numpy(self):
        return self

    def astype(self, d):
        return self.v


class OptResult(object):
    pass


class Optimize(object):
    """scipy.optimize stand-in: evaluates the objective at the start and at
    one more point, and returns an arbitrary point."""

    def __init__(self, env, n):
        self.env, self.n = env, n
        self.calls = []
        self.xs = []

    def minimize(self, fun, x0, jac=None, method=None, args=(), **kw):
        env = self.env
        self.x0, self.jac, self.method, self.kw = x0, jac, method, kw
        x1 = env.array('probe', (self.n,))
        self.vals = [fun(x0, *args), fun(x1, *args)]
        self.points = [x0, x1]
        r = OptResult()
        r.x = env.array('best', (self.n,), smp=(-1, 1))
        r.hess_inv = None
        self.result = r
        return r


def combine(env, case, y, seed, mean, std, norm):
    return P36.full_params(env, case, y, seed, mean, std, norm)[0]


def loss_of(env, p, w):
    t = 0
    for i, v in enumerate(p):
        t = t + w[i] * v + v * v
    return t


def setup(env, case):
    fit, log = case['fit'], case['log']
    n = len(fit)
    mean, std, norm, y, seed, w, u, batch = P36.inputs(env, case)
    tr = rf.trafo(n, mean, std, norm, log)
    return n, mean, std, norm, seed, np.asarray(w)[0], tr


def execute(env, case):
    env.patch_np(rec, srcm, trafo_mod, rtr)
    n, mean, std, norm, seed, w, tr = setup(env, case)
    fit, trafo = case['fit'], case['trafo']
    nfit = sum(fit)
    m = rf.manager(n, 1, tr)
    truth = env.array('truth', (1, n))
    aux = env.array('aux', (1, 1))
    batch = (aux, truth, seed)
    prev = None
    if case.get('prev'):
        # the seed is the result of an earlier module
        prev = seed
        batch = (aux, truth, env.array('other', (1, n), nonneg=True))
    opt = Optimize(env, nfit)
    env.patch(srcm, 'optimize', opt)
    A = np.asarray
    calls = []

    def lag(x, data_batch, seed=None):
        x, s = A(x), A(seed)
        calls.append((x, s, data_batch))
        p = combine(env, case, x, s, A(mean), A(std), norm)[0]
        g = np.empty((1, nfit), dtype=object)
        for k in range(nfit):
            g[0, k] = 3 * x[0, k]
        return Scal(loss_of(env, p, w)), Num(env.wrap(g))

    full_calls = []

    def full(x, data_batch):
        x = A(x)
        full_calls.append((x, data_batch))
        return Num(loss_of(env, x[0], w))

    asked = {}

    class Cache(object):
        def get(self, name, settings):
            asked.setdefault(name, []).append(settings)
            return {'parameter_loss_function': full,
                    'loss_and_gradients_function': lag}[name]

    mod = rec.Reconstruction(
        m, 'lm', Cache(), fit,
        'reco_a' if prev is not None else 'x_seed',
        seed_from_previous_module=prev is not None,
        minimize_in_trafo_space=trafo,
        scipy_optimizer_settings={'method': 'BFGS', 'tol': 3})
    s1 = asked['parameter_loss_function'][0]
    env.check(s1['fit_paramater_list'] == [True] * n and
              s1['minimize_in_trafo_space'] is False,
              'losses are compared in the original space')
    s2 = asked['loss_and_gradients_function'][0]
    env.check(s2['fit_paramater_list'] == fit and
              s2['minimize_in_trafo_space'] is trafo,
              'objective uses the configured space and parameters')
    out = mod.execute(batch, {'reco_a': {'result': prev}})
    env.check(opt.method == 'BFGS' and opt.kw == {'tol': 3} and
              opt.jac is True, 'optimizer settings are passed on')
    # start: the seed in the space of the fit, restricted to the fit
    lgs = case['log'] if isinstance(case['log'], list) else \
        [bool(case['log'])] * n
    start, sd = [], A(seed)[0]
    for i in range(n):
        if fit[i]:
            v = sd[i]
            if trafo:
                if lgs[i]:
                    v = env.fn('log', 1 + v)
                v = (v - A(mean)[i]) / (norm + A(std)[i])
            start.append(v)
    env.eq(opt.x0, env.wrap(start), 'the optimizer starts at the seed')
    for (v, g), x in zip(opt.vals, opt.points):
        p = combine(env, case, A(x).reshape(1, -1), A(seed), A(mean),
                    A(std), norm)[0]
        env.eq(v, loss_of(env, p, w), 'objective of the optimizer')
        env.eq(g, 3 * A(x), 'gradient handed to the optimizer')
    for x, s, b in calls:
        env.check(b is batch, 'objective uses this event')
    # result
    best = A(opt.result.x).reshape(1, -1)
    if trafo:
        c = 0
        for i in range(n):
            if fit[i]:
                if lgs[i]:
                    q = best[0, c] * (norm + A(std)[i]) + A(mean)[i]
                    env.assume(env.and_(q < 60, q > -60))
                c += 1
    want = combine(env, case, best, A(seed), A(mean), A(std), norm)
    env.eq(out['result'], env.wrap(np.array(want, dtype=object)),
           'fitted parameters from the optimizer, the others at the seed')
    env.eq(out['result_trafo'], env.wrap(best), 'result in fit space')
    env.check(out['result_object'] is opt.result, 'optimizer result kept')
    env.eq(out['loss_seed'], loss_of(env, A(seed)[0], w), 'loss of the seed')
    env.eq(out['loss_reco'], loss_of(env, want[0], w), 'loss of the result')
    for x, b in full_calls:
        env.check(b is batch, 'losses of this event')
    env.check(out['seed_tensor_name'] == mod.seed_tensor_name and
              out['seed_from_previous_module'] == (prev is not None),
              'provenance of the seed')


def result_batch(env, case):
    """get_reco_result_batch for several events, NumPy or TF seeds."""
    env.patch_np(trafo_mod, rtr)
    mean, std, norm, y, seed, w, u, batch = P36.inputs(env, case)
    n = len(case['fit'])
    A = np.asarray
    tr = rf.trafo(n, mean, std, norm, case['log'])
    s0 = seed.copy()
    got = rtr.get_reco_result_batch(y, seed, case['fit'], case['trafo'], tr)
    want = combine(env, case, A(y), A(s0), A(mean), A(std), norm)
    env.eq(got, env.wrap(np.array(want, dtype=object)),
           'result batch is the full hypothesis of every event')
    env.eq(seed, s0, 'the seed is left alone')


def bounds(env, case):
    """Parameter bounds follow the transformation."""
    env.patch_np(srcm, trafo_mod)
    n, mean, std, norm, seed, w, tr = setup(env, case)
    m = rf.manager(n, 1, tr)
    fit = case['fit']
    opt = Optimize(env, sum(fit))
    env.patch(srcm, 'optimize', opt)
    A = np.asarray
    lo = env.array('lo', n, smp=(0, 1), nonneg=True)
    hi = env.array('hi', n, smp=(1, 2), nonneg=True)

    def lag(x, data_batch, seed=None):
        return Scal(0. * A(x)[0, 0]), Num(x)
    kw = {'bounds': [[a, b] for a, b in zip(A(lo), A(hi))]}
    if not case['trafo']:
        # taken as they are: one entry per fitted parameter
        kw['bounds'] = [b for b, f in zip(kw['bounds'], fit) if f]
    b, r = m.reconstruct_events(
        ['b'], 'lm', lag, case['fit'], minimize_in_trafo_space=case['trafo'],
        seed=seed, **kw)
    got = opt.kw['bounds']
    lgs = case['log'] if isinstance(case['log'], list) else \
        [bool(case['log'])] * n
    env.check(len(got) == sum(fit), 'one bound per fitted parameter')
    for q, i in enumerate([i for i in range(n) if fit[i]]):
        for j, v in enumerate((A(lo)[i], A(hi)[i])):
            if case['trafo']:
                if lgs[i]:
                    v = env.fn('log', 1 + v)
                v = (v - A(mean)[i]) / (norm + A(std)[i])
            env.eq(got[q][j], v, 'bounds in the space of the fit')
    env.eq(b, env.wrap(A(opt.result.x).reshape(1, -1)), 'best fit')


class TfResult(object):
    pass


def tfp_fn(case):
    n, fit = len(case['fit']), case['fit']

    def f(mean, std, norm, seed, best, aux):
        tr = rf.trafo(n, mean, std, norm, case['log'])
        m = rf.manager(n, 1, tr)
        got = {}

        def lag(x, data_batch, seed_):
            got['batch'], got['seed'], got['x'] = data_batch, seed_, x
            return tf.reduce_sum(x * x) + tf.reduce_sum(seed_), 2. * x

        def minimizer(value_and_gradients_function, initial_position, **kw):
            assert kw == {'tol': 3}, 'optimizer settings'
            r = TfResult()
            got['x0'] = initial_position
            got['val'] = value_and_gradients_function(best)
            r.position = best
            got['r'] = r
            return r
        old = srcm.tfp.optimizer
        srcm.tfp.optimizer = TfResult()
        srcm.tfp.optimizer.probe_minimize = minimizer
        try:
            b = (aux, aux, seed)
            pos, res = m.tf_reconstruct_events(
                b, 'lm', lag, fit, minimize_in_trafo_space=case['trafo'],
                seed='x_seed' if case.get('named') else seed,
                method='probe_minimize', tol=3)
        finally:
            srcm.tfp.optimizer = old
        assert res is got['r'] and got['batch'] is b
        return (pos, got['x0'], got['seed'], got['x'],
                tf.reshape(got['val'][0], [-1])[0], got['val'][1])
    return tfx.Fn(f, dtype='float64', eager=False)


def tfp(env, case):
    """The TensorFlow-probability interface: same start, same objective."""
    mean, std, norm, y, seed, w, u, batch = P36.inputs(env, case)
    fit, n = case['fit'], len(case['fit'])
    A = np.asarray
    aux = env.array('aux', (1, 1))
    pos, x0, s, x, v, g = [
        r.arr() if hasattr(r, 'arr') else r for r in tfp_fn(case)(
            env, mean, std, norm, seed, y, aux)]
    lgs = case['log'] if isinstance(case['log'], list) else \
        [bool(case['log'])] * n
    start = []
    for i in range(n):
        if fit[i]:
            q = A(seed)[0, i]
            if case['trafo']:
                if lgs[i]:
                    q = env.fn('log', 1 + q)
                q = (q - A(mean)[i]) / (norm + A(std)[i])
            start.append(q)
    env.eq(x0, env.wrap([start]), 'the optimizer starts at the seed')
    env.eq(s, seed, 'the seed fills the other parameters')
    env.eq(x, y, 'the objective sees the point of the optimizer')
    env.eq(v, sum(q * q for q in A(y)[0]) + sum(A(seed)[0]),
           'objective value')
    env.eq(g, 2 * A(y), 'objective gradient')
    env.eq(pos, y, 'the position of the optimizer is returned')


class Shgo(object):
    """scipy.optimize stand-in of the global optimizer."""

    def __init__(self, env, n, k):
        self.env, self.n, self.k = env, n, k

    def shgo(self, func, bounds, args=(), **kw):
        self.kw, self.bounds = kw, np.asarray(bounds)
        self.start = self.env.array('start%d' % self.k, (self.n,), smp=(-1, 1))
        self.val = func(self.start, *args)
        hess = kw['minimizer_kwargs'].get('hess')
        self.hess = hess and hess(self.start, *args)
        r = OptResult()
        r.x = self.env.array('best%d' % self.k, (self.n,), smp=(-1, 1))
        self.result = r
        return r


def globally(env, case):
    """The global optimizer searches around the seed."""
    env.patch_np(srcm, trafo_mod)
    n, mean, std, norm, seed, w, tr = setup(env, case)
    m = rf.manager(n, 1, tr)
    A = np.asarray
    fit = [i for i in range(n) if case['fit'][i]]
    kw = {}
    if case.get('named'):
        batch = (env.array('aux', (1, 1)), env.array('truth', (1, n)), seed)
        kw['seed'] = 'x_seed'
    else:
        batch, kw['seed'] = ('b',), seed
    given = {'method': 'X'}
    if case.get('settings'):
        kw['minimizer_kwargs'] = given

    def lag(x, data_batch, seed=None):
        assert data_batch is batch
        x, s = A(x), A(seed)
        p = combine(env, case, x, s, A(mean), A(std), norm)[0]
        return Scal(loss_of(env, p, w)), Num(env.wrap(3 * x))

    def hess(x, data_batch, seed=None):
        assert data_batch is batch
        return Num(env.wrap(5 * A(x)))
    for k in range(2):
        # the first fit must not change the second one
        opt = Shgo(env, len(fit), k)
        env.patch(srcm, 'optimize', opt)
        h = dict(hessian_function=hess) if k == 0 and case.get(
            'hess') else {}
        b, r = m.scipy_global_reconstruct_events(
            batch, 'lm', lag, case['fit'], **dict(kw, **h))
        env.check(opt.bounds.shape == (len(fit), 2),
                  'one range per fitted parameter')
        lgs = case['log'] if isinstance(case['log'], list) else \
            [bool(case['log'])] * n
        for q, i in enumerate(fit):
            v = A(seed)[0, i]
            if lgs[i]:
                v = env.fn('log', 1 + v)
            v = (v - A(mean)[i]) / (norm + A(std)[i])
            env.eq(opt.bounds[q, 0], v - 1, 'range around the seed')
            env.eq(opt.bounds[q, 1], v + 1, 'range around the seed')
        p = combine(env, case, A(opt.start).reshape(1, -1), A(seed), A(mean),
                    A(std), norm)[0]
        env.eq(opt.val[0], loss_of(env, p, w), 'objective of the optimizer')
        env.eq(opt.val[1], 3 * A(opt.start), 'gradient')
        mk = opt.kw['minimizer_kwargs']
        env.check(mk['jac'] is True and opt.kw['options']['jac'] is True,
                  'the gradient is used')
        env.check(mk['method'] == ('X' if case.get('settings') else 'BFGS'),
                  'method of the local optimizer')
        env.check(('hess' in mk) == bool(h) and
                  ('hess' in opt.kw['options']) == bool(h), 'hessian')
        if h:
            env.eq(opt.hess, 5 * A(opt.start).reshape(1, -1), 'hessian')
        env.eq(b, env.wrap(A(opt.result.x).reshape(1, -1)), 'best fit')
        env.check(r is opt.result, 'result of the optimizer')
    env.check(given == {'method': 'X'}, 'settings are not changed')


def sphere(env, case):
    """The spherical optimizer starts at the seed and around it."""
    env.patch_np(srcm, trafo_mod)
    n, mean, std, norm, seed, w, tr = setup(env, case)
    size = case.get('size', 1)
    m = rf.manager(n, 1, tr)
    m._configuration = fx.conf(m, settings={'config': {'I3ParticleMapping': {
        'azimuth': 'p1', 'zenith': 'p3'}}})
    A = np.asarray
    fit = [i for i in range(n) if case['fit'][i]]
    nf = len(fit)
    batch = (env.array('aux', (1, 1)), env.array('truth', (1, n)), seed)
    steps = {}

    def normal(loc=0., scale=1., size=None):
        loc = np.broadcast_to(A(loc), np.broadcast_shapes(
            A(loc).shape, A(scale).shape, size or ()))
        out = np.empty(loc.shape, dtype=object)
        for i in np.ndindex(loc.shape):
            if i[0] < 3:
                steps[i] = env.real('r%d_%d' % i)
            out[i] = loc[i] + steps.get(i, 0.)
        return env.wrap(out)
    env.patch(np.random, 'normal', normal)
    got = {}

    def lossf(x, data_batch, seed=None):
        assert data_batch is batch
        x, s = A(x), A(seed)
        if size == 1:
            return loss_of(env, combine(
                env, case, x, s, A(mean), A(std), norm)[0], w)
        ev = np.empty(len(x), dtype=object)
        dom = np.empty((len(x), 2, 3), dtype=object)
        for e in range(len(x)):
            ev[e] = x[e, 0]
            for i in np.ndindex(2, 3):
                dom[(e,) + i] = x[e, 1] * (1 + i[0] + 3 * i[1])
        return Scal(scalar), Num(env.wrap(ev)), Num(env.wrap(dom))
    scalar = env.real('scalar')

    def opt(func, spherical_indices, initial_points, **kw):
        got.update(kw, sph=spherical_indices, x0=A(initial_points))
        got['y'] = env.array('y', (size, nf), smp=(-1, 1))
        got['val'] = func(got['y'] if size > 1 else got['y'])
        got['best'] = env.array('best', (nf,), smp=(-1, 1))
        return {'x': got['best'], 'success': True, 'n_calls': 3, 'nit': 2}
    env.patch(srcm, 'spherical_opt', opt)
    b, r = m.reconstruct_events_spherical_opt(
        batch, 'lm', lossf, case['fit'], batch_size=size,
        minimize_in_trafo_space=case['trafo'], max_iter=7, seed='x_seed'
        if case.get('named') else seed)
    start = []
    for i in fit:
        v = A(seed)[0, i]
        if case['trafo']:
            v = (v - A(mean)[i]) / (norm + A(std)[i])
        start.append(v)
    env.check(got['x0'].shape == (20 * size, nf), 'number of points')
    env.eq(env.wrap(got['x0'][0]), env.wrap(start),
           'the optimizer starts at the seed')
    for k in range(1, 4):
        for q in range(nf):
            env.eq(got['x0'][k, q], start[q] + steps[k - 1, q],
                   'points around the seed')
    env.check([list(i) for i in got['sph']] == (
        [[1, 3]] if not case['trafo'] and nf == n else []), 'angles')
    env.check(got['batch_size'] == size and got['max_iter'] == 7,
              'settings of the optimizer')
    y = A(got['y'])
    if size == 1:
        env.eq(got['val'], loss_of(env, combine(
            env, case, y, A(seed), A(mean), A(std), norm)[0], w),
            'objective of the optimizer')
    else:
        for e in range(size):
            env.eq(A(got['val'])[e], scalar / size + y[e, 0] + y[e, 1] * (
                (1 + 4 + 7) + (2 + 5 + 8)), 'loss of every point')
    env.eq(b, env.wrap(A(got['best']).reshape(1, -1)), 'best fit')
    env.check(r['x'] is got['best'], 'result of the optimizer')


class Batch(object):
    """A tensor of the batch."""

    def __init__(self, a):
        self.a = np.asarray(a)
        self.shape = self.a.shape

    def __array__(self, *a, **k):
        return self.a

    def numpy(self):
        return self.a.copy()


def interface(env, case):
    """The module hands the same problem to every optimizer."""
    env.patch_np(rec, trafo_mod, rtr)
    n, ne = case['n'], 1 if case.get('random') else case.get('events', 1)
    fit = case['fit']
    mean = env.array('mean', n, smp=(-1, 1))
    std = env.array('std', n, nonneg=True, smp=(.2, 1.5))
    norm = env.real('norm', pos=True, smp=(1e-6, .1))
    tr = rf.trafo(n, mean, std, norm, None, 'x_label')
    m = rf.manager(n, 1, tr, name='x_label')
    A = np.asarray
    seed = env.array('seed', (ne, n), smp=(-1, 1))
    raw = Batch(seed.copy()) if case.get('random') else seed
    batch = (env.array('aux', (ne, 1)), Batch(env.array('truth', (ne, n))),
             raw)
    w = A(env.array('w', n, smp=(-1, 1)))
    best = env.array('best', (ne, sum(fit)), smp=(-1, 1))
    draws, got = {}, {}

    def draw(kind):
        def f(loc=None, scale=None, low=None, high=None, size=None):
            shape = A(loc).shape if loc is not None else (size or ())
            out = np.empty(shape, dtype=object)
            for i in np.ndindex(shape):
                d = draws[len(draws)] = env.real('draw%d' % len(draws))
                out[i] = d + (A(loc)[i] if loc is not None else 0.)
            return env.wrap(out) if shape else out[()]
        return f
    if case.get('random'):
        env.patch(np.random, 'normal', draw('normal'))
        env.patch(np.random, 'uniform', draw('uniform'))
    env.patch(rec, 'print', lambda *a: None)

    def full(x, data_batch):
        assert data_batch is batch
        return Num(sum(loss_of(env, p, w) for p in A(x)))

    class Cache(object):
        def get(self, name, settings):
            if settings['fit_paramater_list'] == [True] * n and \
                    settings['minimize_in_trafo_space'] is False and len(
                        settings['input_signature']) == 2:
                return full
            return name, settings

        def add(self, *a):
            raise AssertionError('known functions are not built again')
    name = {'scipy': 'reconstruct_events',
            'shog': 'scipy_global_reconstruct_events',
            'spherical_opt': 'reconstruct_events_spherical_opt'}[case['how']]

    def method(data_batch, loss_module, **kw):
        got.update(kw, batch=data_batch, module=loss_module)
        return best, 'object'
    env.patch(m, name, method)
    given = {'method': 'X', 'tol': 3}
    mod = rec.Reconstruction(
        m, 'lm', Cache(), fit, 'x_seed', parameter_tensor_name='x_label',
        minimize_in_trafo_space=case['trafo'],
        reco_optimizer_interface=case['how'],
        randomize_seed=bool(case.get('random')),
        scipy_optimizer_settings=given)
    out = mod.execute(batch, {})
    used = A(got['seed'])
    if not case.get('random'):
        env.eq(env.wrap(used), seed, 'seed of the optimizer')
    else:
        env.check(used.shape == (ne, n) and len(draws) == 12,
                  'random seeds')
        env.eq(env.wrap(raw.a), seed, 'the seed of the event is kept')
        env.eq(used[0, 5], A(seed)[0, 5], 'the energy is kept')
    env.check(got['batch'] is batch and got['module'] == 'lm' and
              got['fit_paramater_list'] == fit and
              got.get('minimize_in_trafo_space', True) is case['trafo'] and
              got.get('parameter_tensor_name') == 'x_label', 'problem')
    fname, settings = got['loss_function' if case['how'] == 'spherical_opt'
                          else 'loss_and_gradients_function']
    env.check(fname == ('parameter_loss_function'
                        if case['how'] == 'spherical_opt'
                        else 'loss_and_gradients_function') and
              settings['fit_paramater_list'] == fit and
              settings['minimize_in_trafo_space'] is case['trafo'] and
              settings['parameter_tensor_name'] == 'x_label' and
              settings['loss_module'] == 'lm' and settings['seed'] is None
              and settings.get('reduce_to_scalar', True), 'objective')
    if case['how'] == 'scipy':
        env.check(got['method'] == 'X' and got['tol'] == 3, 'settings')
    elif case['how'] == 'shog':
        env.check(got['minimizer_kwargs'] == given, 'settings')
    want = []
    for e in range(ne):
        row, c = [], 0
        for i in range(n):
            if fit[i]:
                v = A(best)[e, c]
                c += 1
                row.append(v * (norm + A(std)[i]) + A(mean)[i]
                           if case['trafo'] else v)
            else:
                row.append(used[e, i])
        want.append(row)
    env.eq(A(out['result']), env.wrap(np.array(want, dtype=object)),
           'result')
    env.eq(out['loss_seed'], sum(loss_of(env, p, w) for p in used),
           'loss of the seed')
    env.eq(out['loss_reco'], sum(loss_of(env, p, w) for p in want),
           'loss of the result')
    env.check(out['result_object'] == 'object', 'result of the optimizer')


def wrong_len(env, case):
    n = 3
    k = env.choose('len', 1, 5)
    if k == n:
        env.check(True, 'mask of the right length')
        return
    tr = rf.trafo(n, np.zeros(n), np.ones(n), 1e-6, None)
    m = rf.manager(n, 1, tr)
    for f in ('reconstruct_events', 'reconstruct_events_spherical_opt',
              'scipy_global_reconstruct_events', 'tf_reconstruct_events'):
        env.raises(ValueError, lambda: getattr(m, f)(
            ['b'], 'lm', None, [True] * k, seed=np.zeros((1, n))),
            'a fit mask of the wrong length is refused')


MASKS = rf.fits(3)
CASES = [{'fit': f, 'log': [False, True, True], 'trafo': True}
         for f in MASKS]
CASES += [{'fit': f, 'log': l, 'trafo': t, 'prev': p} for f, l, t, p in (
    ([True, True, True], True, True, False),
    ([True, False, True], None, True, True),
    ([False, True, True], None, False, False),
    ([True, True, True], None, False, True))]
RB = [{'fit': f, 'log': l, 'trafo': t, 'n': 2} for f in MASKS
      for l, t in (([True, False, True], True), (None, False))]
BD = [{'fit': f, 'log': l, 'trafo': t} for f in MASKS
      for l, t in (([False, True, False], True), (True, True),
                   (None, False))]
TH = [{'fit': f, 'log': [True, False, False, True], 'trafo': True}
      for f in rf.fits(4)]
B = ('3 (thorough 4) parameters and every fit mask; every real seed, '
     'optimum and transformation (log entries within the +-60 clip)')
HARNESSES = [
    Harness('execute', execute, CASES, [
        R + 'reconstruction.Reconstruction.__init__',
        R + 'reconstruction.Reconstruction.execute',
        S + 'reconstruct_events', R + 'utils.trafo.get_reco_result_batch',
        'egenerator.data.trafo.DataTransformer.transform',
        'egenerator.data.trafo.DataTransformer.inverse_transform'], B,
        thorough_cases=TH, rtol=1e-5, atol=1e-5),
    Harness('result_batch', result_batch, RB, [
        R + 'utils.trafo.get_reco_result_batch'], B + '; 2 events',
        rtol=1e-5, atol=1e-5),
    Harness('bounds', bounds, BD, [S + 'reconstruct_events'], B),
    Harness('tfp', tfp, [dict(fit=f, log=l, trafo=t) for f in MASKS
                         for l, t in (([False, True, True], True),
                                      (None, False))] + [
            {'fit': [True, False, True], 'log': None, 'trafo': True,
             'named': True}], [S + 'tf_reconstruct_events'], B),
    Harness('global', globally, [
        dict(fit=f, log=[False, True, True], trafo=True) for f in MASKS] + [
            dict(fit=[True] * 3, log=None, trafo=True, hess=1),
            dict(fit=[True] * 3, log=None, trafo=True, hess=1, settings=1,
                 named=1)],
        [S + 'scipy_global_reconstruct_events'], B),
    Harness('spherical', sphere, [
        dict(fit=[True] * 7, log=None, trafo=t, size=k, named=k == 2)
        for t in (True, False) for k in (1, 2)] + [
            dict(fit=[True] * 4 + [False] + [True] * 3, log=None, trafo=t)
            for t in (True, False)],
        [S + 'reconstruct_events_spherical_opt'],
        '7 of up to 8 parameters, up to 2 points at once'),
    Harness('interface', interface, [
        dict(n=3, how=h, trafo=t, fit=f, events=e) for h in (
            'scipy', 'shog', 'spherical_opt') for t, f, e in (
                (True, [True, False, True], 2), (False, [True] * 3, 1))] + [
            dict(n=13, how='scipy', trafo=True, random=1, fit=[
                i not in (2, 5, 7) for i in range(13)])], [
        R + 'reconstruction.Reconstruction.__init__',
        R + 'reconstruction.Reconstruction.execute'],
        '3 parameters (13 with random seeds), up to 2 events'),
    Harness('wrong_length', wrong_len, [{}], [
        S + 'reconstruct_events', S + 'tf_reconstruct_events',
        S + 'scipy_global_reconstruct_events',
        S + 'reconstruct_events_spherical_opt'], 'mask lengths 1..5'),
]
ASSUMPTIONS = ['scipy.optimize.minimize is a stub that evaluates the '
               'objective twice and returns an arbitrary point',
               'the compiled loss functions are stubs (decided in P36)']
