"""Goodness of fit: sampled events, their losses and p-values."""
import types
import numpy as np
import tensorflow as tf
from symx import npx
from symx.runner import Harness
from props import fx
from props import recofx as rf
from props.P31 import Num, Scal
from props.P38 import Arr, close
from egenerator.data.tensor import DataTensorList
from egenerator.data import trafo as trafo_mod
from egenerator.manager.reconstruction.modules import fit_quality as fq
from egenerator.manager.reconstruction.modules.utils import trafo as rtr
from egenerator.manager.reconstruction.tray import FunctionCache

A = np.asarray


class Tf(object):
    """tensorflow as far as the module uses it."""
    TensorSpec = staticmethod(tf.TensorSpec)

    def __getattr__(self, k):
        return getattr(tf, k)

    @staticmethod
    def convert_to_tensor(x, dtype=None):
        return Arr(x)

    @staticmethod
    def cast(x, dtype=None):
        return x


class Rng(object):
    """Random numbers are arbitrary; remembers them."""

    def __init__(self, env):
        self.env, self.draws, self.normal = env, [], []

    def uniform(self, low=0., high=1., size=None):
        size = tuple(int(n) for n in np.atleast_1d(size))
        a = self.env.array('draw%d' % len(self.draws), size, lo=low, hi=high,
                           smp=(low, high))
        self.draws.append((low, high, a.copy()))
        return a

    def multivariate_normal(self, mean, cov, size):
        a = self.env.array('hypo%d' % len(self.normal), (size, len(mean)),
                           lo=-20, hi=20, smp=(-1, 1))
        self.normal.append((mean, cov, size, a.copy()))
        return a


class NpWith(object):
    def __init__(self, np_, random):
        self._np, self.random = np_, random

    def __getattr__(self, k):
        return getattr(self._np, k)


def numpy_with(env, rng):
    np_ = npx.symnp if env.sym else npx.concnp
    return NpWith(np_, types.SimpleNamespace(RandomState=lambda s: rng))


def p_value(env, case):
    """The p-values count the samples on either side of the data."""
    env.patch_np(fq)
    n = case['n']
    x, d = env.array('sample', (n,)), env.real('data')
    x0 = x.copy()
    p1, p2 = fq.GoodnessOfFit.compute_p_value(None, x, d)
    below = sum(1 if bool(v < d) else 0 for v in A(x0))
    env.eq(p1, (n - below) / n, 'one-sided p-value')
    env.eq(p2, 2. * min(below, n - below) / n, 'two-sided p-value')
    env.eq(x, x0, 'samples are not modified')


def latent(env, k, ids, n=None):
    """Mixture parameters: symbolic at the given DOMs."""
    shape = ((86, 60, k) if n is None else (n, 86, 60, k))
    out = {}
    for name, kw in (('scale', dict(pos=True, smp=(.1, 1))), ('mu', {}),
                     ('sigma', dict(pos=True, smp=(.1, 1))),
                     ('r', dict(pos=True, smp=(.1, 2)))):
        a = np.full(shape, 1. / k, dtype=object if env.sym else float)
        for i in range(n or 1):
            for d, (s, o) in enumerate(ids):
                v = env.reals('%s%d_%d' % (name, i, d), k, **kw)
                if name == 'scale':
                    tot = sum(v[1:], v[0])
                    v = [x / tot for x in v]
                if n is None:
                    a[s, o] = v
                else:
                    a[i, s, o] = v
        out[name] = a
    return out


class Ppf(object):
    def __init__(self, env):
        self.env, self.values = env, []

    def __call__(self, q, mu=0., sigma=1., r=1.):
        out = np.empty(len(q), dtype=object if self.env.sym else float)
        for j in range(len(q)):
            v = self.env.real('t%d' % len(self.values), smp=(-1, 1))
            self.values.append((A(q)[j], A(mu)[j], A(sigma)[j], A(r)[j], v))
            out[j] = v
        return self.env.wrap(out)


def pulses(env, case):
    """Charges, times, quantiles and DOMs of the pulses of an event."""
    env.patch_np(fq)
    ids, k = case['doms'], case.get('k', 2)
    lat = latent(env, k, ids)
    pe = env.native(np.zeros((86, 60, 1), dtype=int))
    for d, (s, o) in enumerate(ids):
        pe[s, o, 0] = env.choose('pe%d' % d, 0, case.get('pe', 1))
    ppf, rng = Ppf(env), Rng(env)
    env.patch(fq, 'basis_functions', types.SimpleNamespace(
        asymmetric_gauss_ppf=ppf))
    cum = A(lat['scale']).copy()
    for j in range(1, k):
        cum[..., j] = cum[..., j - 1] + cum[..., j]
    cum[..., -1] = 1.00000001
    t0 = env.real('time', smp=(0, 1000))
    quant = bool(case.get('quant'))
    before = pe.copy()
    got, gid = fq.GoodnessOfFit.sample_event_pulses(
        None, rng=rng, dom_charges=pe, cum_scale=env.wrap(cum),
        source_time=t0, latent_mu=env.wrap(lat['mu']),
        latent_sigma=env.wrap(lat['sigma']), latent_r=env.wrap(lat['r']),
        add_charge_quantiles=quant)
    got, gid = A(got), A(gid)
    n = int(pe.sum())
    env.check(bool((pe == before).all()), 'charges are left alone')
    env.check(got.shape == (n, 3 if quant else 2) and gid.shape == (n, 3),
              'one row per photo-electron')
    env.check(sorted(map(tuple, gid.tolist())) == sorted(
        (0, s, o) for s, o in ids for _ in range(pe[s, o, 0])),
        'DOMs of the pulses')
    p = v = 0
    for s, o in sorted(ids):
        m = int(pe[s, o, 0])
        rows = [got[i] for i in range(n) if tuple(gid[i]) == (0, s, o)]
        if not m:
            continue
        low, high, c = rng.draws[p]
        c = A(c)
        env.check((low, high) == (.25, 1.75) and c.shape == (m,),
                  'range of the charges')
        low, high, u = rng.draws[p + 1]
        u = A(u)
        env.check((low, high) == (0., 1.) and u.shape == (m, 2),
                  'random numbers of the times')
        p += 2
        want = []
        for j in range(m):
            comp = k - 1
            for q in range(k - 1):
                if bool(u[j, 0] <= cum[s, o, q]):
                    comp = q
                    break
            rec = ppf.values[v]
            v += 1
            env.eq(rec[0], u[j, 1], 'quantile')
            for name, x in zip(('mu', 'sigma', 'r'), rec[1:4]):
                env.eq(x, lat[name][s, o, comp], 'mixture component')
            want.append((rec[4] * 1000. + t0, c[j] * (
                m / sum(c[1:], c[0]))))
        for a, b in zip(rows, rows[1:]):
            env.le(a[1], b[1], 'pulses are sorted')
        for t, q in want:
            env.check(env.or_(*[env.and_(close(env, w[1], t), close(
                env, w[0], q)) for w in rows]), 'time and charge')
        acc = 0.
        for w in rows:
            env.check(env.or_(*[env.and_(close(env, w[1], t), close(
                env, w[0], q)) for t, q in want]), 'time and charge')
            acc = acc + w[0]
            if quant:
                env.eq(w[2] * m, acc, 'quantile of the charge')
        env.eq(acc, float(m), 'total charge')
    env.check(p == len(rng.draws) and v == len(ppf.values),
              'random numbers used')


class Man(object):
    """A manager whose loss depends on the hypothesis and all event data."""

    def __init__(self, env, tr, n, mean, std, norm, log, doms, k=1,
                 quant=False):
        self.env, self.data_trafo, self.n, self.k = env, tr, n, k
        self.mean, self.std, self.norm, self.log = mean, std, norm, log
        self.doms = doms
        self.recos, self.hypos, self.losses = [], [], []
        self.models = [types.SimpleNamespace(
            get_index=lambda k: {'time': n - 1}[k])]
        tensors = DataTensorList([
            fx.tensor('x_dom_charge', [None, 86, 60, 1], 'data'),
            fx.tensor('x_other', [None], 'data'),
            fx.tensor('x_pulses', [None, 2], 'data'),
            fx.tensor('x_pulses_ids', [None, 3], 'data')])
        env.check([tensors.get_index(k) for k in (
            'x_dom_charge', 'x_other', 'x_pulses', 'x_pulses_ids')] == [
                0, 1, 2, 3], 'order of the tensors')
        self.data_handler = types.SimpleNamespace(
            get_data_set_signature=lambda: ('sig',), tensors=tensors,
            data_module=types.SimpleNamespace(
                configuration=types.SimpleNamespace(
                    config={'add_charge_quantiles': bool(quant)})))

    def full(self, s, x, seed):
        x = A(x)
        self.env.check(x.shape == (1, sum(s['fit_paramater_list'])),
                       'number of fitted parameters')
        out, c = [], 0
        for i in range(self.n):
            if s['fit_paramater_list'][i]:
                v = x[0, c]
                c += 1
                if s['minimize_in_trafo_space']:
                    v = v * (self.norm + self.std[i]) + self.mean[i]
                    if self.log[i]:
                        v = self.env.fn('exp', v) - 1.
            else:
                v = A(seed.a if isinstance(seed, Arr) else seed)[0, i]
            out.append(v)
        return out

    def terms(self, p, batch):
        """Loss terms are arbitrary: scalar, event and DOMs."""
        env = self.env
        q, other, pulses, ids = [A(b) for b in batch]
        env.check(q.shape == (1, 86, 60, 1) and pulses.ndim == ids.ndim == 2
                  and len(pulses) == len(ids), 'shapes of the batch')
        i = len(self.losses)
        dom = np.zeros((86, 60), dtype=object if env.sym else float)
        for k, x in enumerate(self.doms):
            dom[x] = env.real('dom%d_%d' % (i, k))
        out = env.real('scalar%d' % i), env.real('event%d' % i), dom
        self.losses.append((p, batch, out))
        return out

    def get_parameter_loss_function(self, **s):
        env = self.env

        def f(parameters_trafo, data_batch, seed=None):
            a, b, c = self.terms(self.full(s, parameters_trafo, seed),
                                 data_batch)
            if s.get('sort_loss_terms'):
                env.check(not s.get('reduce_to_scalar'), 'loss terms')
                return [Num(a), Num(env.wrap([b])), Num(env.wrap([c]))]
            env.check(bool(s.get('reduce_to_scalar', True)), 'scalar loss')
            return Tensor(env, a + b + sum(c[d] for d in self.doms))
        f.__name__ = 'parameter_loss_function'
        return f

    def get_loss_and_gradients_function(self, **s):
        def f(parameters_trafo, data_batch, seed=None):
            return self.full(s, parameters_trafo, seed), data_batch
        f.__name__ = 'loss_and_gradients_function'
        return f

    def reconstruct_events(self, batch, loss_module,
                           loss_and_gradients_function, fit_paramater_list,
                           minimize_in_trafo_space=True, seed='x_seed',
                           parameter_tensor_name='x_parameters', **k):
        env, i = self.env, len(self.recos)
        best = env.array('best%d' % i, (1, sum(fit_paramater_list)), lo=-5,
                         hi=5)
        s = dict(fit_paramater_list=fit_paramater_list,
                 minimize_in_trafo_space=minimize_in_trafo_space)
        v, _ = loss_and_gradients_function(best, batch, seed)
        env.eq(env.wrap(np.array(v)), env.wrap(np.array(self.full(
            s, best, seed))), 'objective')
        self.recos.append((s, batch, seed, best, k))
        return best, 'object'

    def get_model_tensors_function(self, model_index=0):
        env = self.env
        env.check(model_index == 0, 'model')

        def f(x):
            x = x.a if isinstance(x, Arr) else x
            self.hypos.append(A(x).copy())
            n = len(x)
            self.lat = latent(env, self.k, self.doms, n)
            out = {'latent_var_' + k: Num(env.wrap(v))
                   for k, v in self.lat.items()}
            out['dom_charges'] = Num('mu')
            out['dom_charges_variance'] = Num('var')
            return out
        f.__name__ = 'model_tensors_function'
        return f


class SymTensor(npx.SArr):
    def numpy(self):
        return self[()]


class ConcTensor(np.ndarray):
    def numpy(self):
        return np.float64(self)


def Tensor(env, v):                                          # noqa: N802
    """A scalar tensor."""
    if not env.sym:
        return np.array(v, dtype=float).view(ConcTensor)
    a = np.empty((), dtype=object)
    a[()] = v
    return a.view(SymTensor)


def unwrap(v):
    return v[()] if isinstance(v, np.ndarray) else v


def execute(env, case, before=None):
    cache = FunctionCache()
    rng, ppf = Rng(env), Ppf(env)
    env.patch_np(rtr, trafo_mod)
    env.patch(fq, 'np', numpy_with(env, rng))
    env.patch(fq, 'tf', Tf())
    env.patch(fq, 'print', lambda *a: None)
    doms, n, m = case['doms'], len(case['fit']), case['samples']
    fit, trafo, log = case['fit'], case['trafo'], case['log']
    mean = env.array('mean', (n,))
    std = env.array('std', (n,), pos=True, smp=(.5, 2))
    norm = env.real('norm', pos=True, smp=(.01, .1))
    tr = rf.trafo(n, mean, std, norm, log)
    man = Man(env, tr, n, A(mean), A(std), norm, log, doms,
              case.get('k', 1), case.get('quant'))
    pes = []

    def negative(rng, mu, alpha_or_var, param_is_alpha, size=None):
        env.check((mu, alpha_or_var, param_is_alpha) == ('mu', 'var', False),
                  'number of photo-electrons')
        pe = env.native(np.zeros((m, 86, 60, 1), dtype=int))
        for i in range(m):
            for d, (s, o) in enumerate(doms):
                pe[i, s, o, 0] = case['pe'][i][d]
        pes.append(pe)
        return pe.copy()
    env.patch(fq, 'basis_functions', types.SimpleNamespace(
        asymmetric_gauss_ppf=ppf, sample_from_negative_binomial=negative))
    per_dom, reco = bool(case.get('dom')), bool(case.get('reco'))
    cov = case.get('cov')
    if before is not None:
        before(man, cache)
    mod = fq.GoodnessOfFit(
        man, 'lm', cache, fit, reco_key='reco',
        covariance_key='cov' if cov else None, minimize_in_trafo_space=trafo,
        num_samples=m, reconstruct_samples=reco,
        add_per_dom_calculation=per_dom,
        scipy_optimizer_settings={'method': 'X'},
        normalize_by_total_charge=bool(case.get('norm')))
    # the data event
    charge = np.zeros((1, 86, 60, 1), dtype=object if env.sym else float)
    tot = 0.
    for d, (s, o) in enumerate(doms):
        charge[0, s, o, 0] = env.real('q%d' % d, nonneg=True)
        tot = tot + charge[0, s, o, 0]
    other = env.array('other', (1,))
    batch = (env.wrap(charge), other, env.array('pulses', (2, 2)),
             np.array([[0, 3, 4], [0, 7, 1]]))
    y = env.array('y', (1, sum(fit)), lo=-5, hi=5)
    seed = env.array('seed', (1, n), nonneg=True)
    s = dict(fit_paramater_list=fit, minimize_in_trafo_space=trafo)
    best = man.full(s, y, seed)
    for i in range(n):
        if log[i]:
            env.assume(env.and_(best[i] > -1., best[i] < 1e6))
    res = {'reco': {'result': env.wrap(np.array([best])),
                    'result_trafo': y, 'result_object': None},
           'cov': {'cov_sand': 'cov_sand', 'cov': 'cov', 'cov_trafo': 'ct',
                   'cov_sand_trafo': 'cst'}}
    out = mod.execute(batch, res)
    # hypotheses
    hyp = [[v for v in best] for _ in range(m)]
    if cov:
        env.check(len(rng.normal) == 1, 'one draw')
        mu, c, size, draw = rng.normal[0]
        env.check(c == 'cov_sand' and size == m, 'covariance matrix')
        draw = A(draw)
        for i in range(n):
            env.eq(A(mu)[i], env.fn('log', 1. + best[i]) if log[i] else
                   best[i], 'mean of the hypotheses')
            for e in range(m):
                hyp[e][i] = env.fn('exp', draw[e, i]) - 1. if log[i] else \
                    draw[e, i]
    else:
        env.check(not rng.normal, 'no draw')
    env.check(len(man.hypos) == 1 and man.hypos[0].shape == (m, n),
              'hypotheses of the model')
    env.eq(env.wrap(man.hypos[0]), env.wrap(np.array(hyp)),
           'hypotheses of the model')
    env.eq(out['sampled_hypotheses'], env.wrap(np.array(hyp)),
           'sampled hypotheses')
    # events
    env.check(len(man.recos) == (m if reco else 0), 'reconstructions')
    env.check(len(man.losses) == m + 1, 'losses')
    llh, dllh, points = [], [], []
    p = v = 0
    for e in range(m):
        pt, b, _ = man.losses[e]
        want = hyp[e]
        if reco:
            st, rb, sd, q, k = man.recos[e]
            want = man.full(s, q, env.wrap(np.array([hyp[e]])))
            env.check(rb is b or all(x is y for x, y in zip(rb, b)),
                      'event of the reconstruction')
            env.check(list(st['fit_paramater_list']) == fit and st[
                'minimize_in_trafo_space'] is trafo and k.get(
                    'method') == 'X', 'settings of the reconstruction')
            env.eq(sd.a if isinstance(sd, Arr) else sd,
                   env.wrap(np.array([hyp[e]])), 'seed')
        points.append(want)
        env.eq(env.wrap(np.array(pt)), env.wrap(np.array(want)),
               'hypothesis of the loss')
        env.check(b[1] is other, 'other tensors')
        pe = pes[0][e]
        q, pul, ids = A(b[0]), A(b[2]), A(b[3])
        for x in doms:
            env.eq(q[0][x][0], float(pe[x][0]), 'charges of the sampled event')
        env.check(sum(1 for x in q.reshape(-1) if not (
            isinstance(x, (int, float)) and x == 0)) <= len(doms),
            'charges of other DOMs')
        env.check(sorted(map(tuple, ids.tolist())) == sorted(
            (0, a, o) for a, o in doms for _ in range(pe[a, o, 0])),
            'pulses of the sampled event')
        for a, o in sorted(doms):
            mm = int(pe[a, o, 0])
            if not mm:
                continue
            row = [x for x, i in zip(pul, ids) if tuple(i) == (0, a, o)][0]
            rec = ppf.values[v]
            comp, lat = 0, man.lat
            if man.k == 2 and not bool(A(rng.draws[2 * v + 1][2])[0, 0] <=
                                       lat['scale'][e, a, o, 0]):
                comp = 1
            v += 1
            for name, x in zip(('mu', 'sigma', 'r'), rec[1:4]):
                env.eq(x, lat[name][e, a, o, comp], 'latent variables')
            env.check(len(row) == (3 if case.get('quant') else 2),
                      'columns of the pulses')
            if case.get('quant'):
                env.eq(row[2], 1., 'quantile of a pulse')
            env.eq(row[1], rec[4] * 1000. + hyp[e][n - 1], 'time of a pulse')
            env.eq(row[0], 1., 'charge of a pulse')
        a, c, d = man.losses[e][2]
        t = 1. + float(pe.sum()) if case.get('norm') else 1.
        llh.append((a + c + sum(d[x] for x in doms)) / t)
        dllh.append({x: d[x] / t for x in doms})
    pt, b, (a, c, d) = man.losses[m]
    env.check(all(x is z for x, z in zip(b, batch)), 'the data event')
    env.eq(env.wrap(np.array(pt)), env.wrap(np.array(best)),
           'best fit of the data event')
    t = 1. + tot if case.get('norm') else 1.
    data = (a + c + sum(d[x] for x in doms)) / t
    ddom = {x: d[x] / t for x in doms}
    env.eq(unwrap(out['loss_data_fit']), data, 'loss of the data')
    for k, f in (('mean', sum(llh[1:], llh[0]) / m),):
        env.eq(out['loss_sample_' + k], f, 'mean of the losses')
    env.check(env.and_(*[out['loss_sample_min'] <= x + (
        0. if env.sym else 1e-9 * (1. + abs(x))) for x in llh] + [env.or_(*[
            close(env, out['loss_sample_min'], x) for x in llh])]),
        'smallest loss')
    env.check(env.and_(*[out['loss_sample_max'] >= x - (
        0. if env.sym else 1e-9 * (1. + abs(x))) for x in llh] + [env.or_(*[
            close(env, out['loss_sample_max'], x) for x in llh])]),
        'largest loss')

    def pv(x, y):
        below = sum(1 if bool(q < y) else 0 for q in x)
        return (m - below) / m, 2. * min(below, m - below) / m
    p1, p2 = pv(llh, data)
    env.eq(out['event_p_value_1sided'], p1, 'p-value of the event')
    env.eq(out['event_p_value_2sided'], p2, 'two-sided p-value of the event')
    if per_dom:
        for x in doms:
            p1, p2 = pv([q[x] for q in dllh], ddom[x])
            env.eq(A(out['dom_p_value1'])[x], p1, 'p-value of a DOM')
            env.eq(A(out['dom_p_value2'])[x], p2, 'p-value of a DOM')
    else:
        env.check('dom_p_value1' not in out, 'no p-values of DOMs')
    if reco:
        env.eq(out['sample_recos'], env.wrap(np.array(points)),
               'reconstructed hypotheses')
        diff = [[h - q for h, q in zip(a, b)] for a, b in zip(hyp, points)]
        bias = [sum((r[i] for r in diff[1:]), diff[0][i]) / m
                for i in range(n)]
        env.eq(out['sample_reco_bias'], env.wrap(np.array(bias)), 'bias')
        c = A(out['sample_reco_cov'])
        for i in range(n):
            for j in range(n):
                env.eq(c[i, j], sum((r[i] - bias[i]) * (
                    r[j] - bias[j]) for r in diff) / (m - 1.),
                    'covariance of the reconstructions')


E = 'egenerator.manager.reconstruction.modules.fit_quality.GoodnessOfFit.'
N = [False] * 3
L = [False, True, False]
EXE = [
    dict(fit=[True] * 3, log=L, trafo=True, samples=2, pe=[[1, 0], [0, 0]],
         reco=1, dom=1, norm=1, cov=1),
    dict(fit=[True] * 3, log=N, trafo=True, samples=2, pe=[[1, 1], [0, 1]],
         norm=0),
    dict(fit=[True, False, True], log=N, trafo=True, samples=2,
         pe=[[1, 0], [0, 1]], reco=1, norm=1),
    dict(fit=[False, True, True], log=N, trafo=True, samples=2,
         pe=[[1, 0], [0, 1]], dom=1),
    dict(fit=[False, False, True], log=N, trafo=False, samples=2,
         pe=[[1, 0], [0, 1]], reco=0, norm=1),
    dict(fit=[True] * 3, log=L, trafo=False, samples=2, cov=1,
         pe=[[1, 0], [0, 1]], reco=1, norm=1),
    dict(fit=[True] * 3, log=N, trafo=True, samples=2, pe=[[1, 0], [1, 0]],
         k=2, norm=1, quant=1)]
for _c in EXE:
    _c['doms'] = [(0, 0), (85, 59)][:1 if _c.get('dom') else 2]
HARNESSES = [
    Harness('p_value', p_value, [dict(n=1), dict(n=3)], [
        E + 'compute_p_value'], 'up to 3 (5) samples',
        thorough_cases=[dict(n=4), dict(n=5)], max_paths=20000),
    Harness('pulses', pulses, [
        dict(doms=[(0, 0), (85, 59)]),
        dict(doms=[(3, 17)], pe=2, k=3, quant=1),
        dict(doms=[(7, 2), (7, 3)], quant=1)], [E + 'sample_event_pulses'],
        'up to 2 DOMs, 2 (3) photo-electrons and 3 components',
        thorough_cases=[dict(doms=[(7, 2)], pe=3, quant=1)],
        max_paths=20000),
    Harness('execute', execute, EXE, [E + '__init__', E + 'execute'],
            '2 (3) samples, 3 parameters, 2 DOMs', max_paths=20000,
            thorough_cases=[dict(EXE[1], samples=4, reco=1, pe=[
                [1, 0], [0, 0], [1, 1], [0, 1]]), dict(EXE[2], samples=3, pe=[
                    [1, 0], [0, 0], [1, 1]], dom=1, doms=[(5, 6)])])]
ASSUMPTIONS = ['random numbers, numbers of photo-electrons and results of '
               'the optimizer are arbitrary; losses are arbitrary '
               'values; their hypotheses and events are checked']
