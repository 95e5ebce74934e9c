"""The objective of the fit is the model's loss at the full hypothesis."""
import numpy as np
import tensorflow as tf
from symx.runner import Harness
from symx import tfx
from props import fx, recofx as rf

M = 'egenerator.manager.source.SourceManager.'


def full_params(env, case, y, seed, mean, std, norm):
    """The documented hypothesis (event by event) and d p / d y."""
    fit, log, n = case['fit'], case['log'], len(case['fit'])
    lgs = log if isinstance(log, list) else [bool(log)] * n
    ps, ds = [], []
    for e in range(len(seed)):
        row, drow, c = [], [], 0
        for i in range(n):
            if not fit[i]:
                row.append(seed[e][i])
                drow.append(None)
                continue
            v = y[e][c]
            if case['trafo']:
                z = v * (norm + std[i]) + mean[i]
                d = norm + std[i]
                if lgs[i]:
                    d = d * env.fn('exp', z)
                    z = env.fn('exp', z) - 1
                row.append(z)
                drow.append(d)
            else:
                row.append(v)
                drow.append(1)
            c += 1
        ps.append(row)
        ds.append(drow)
    return ps, ds


def inputs(env, case):
    n, ne, nm = len(case['fit']), case.get('n', 1), case.get('models', 1)
    log = case['log']
    lgs = log if isinstance(log, list) else [bool(log)] * n
    nf = sum(case['fit'])
    mean = env.array('mean', n, smp=(-1, 1))
    std = env.array('std', n, nonneg=True, smp=(0.2, 1.5))
    norm = env.real('norm', pos=True, smp=(1e-6, 0.1))
    y = env.array('y', (ne, nf), smp=(-1.5, 1.5))
    seed = np.empty((ne, n), dtype=object)
    for e in range(ne):
        for i in range(n):
            nmx = 'seed_%d_%d' % (e, i)
            if lgs[i]:
                seed[e, i] = env.real(nmx, lo=-0.999, smp=(-0.5, 20))
                u = env.fn('log', 1 + seed[e, i])
                env.assume(env.and_(u <= 60, u >= -60))
            else:
                seed[e, i] = env.real(nmx, smp=(-3, 3))
    # stay inside the clip of the partial-log inverse
    if case['trafo']:
        c = 0
        for i in range(n):
            if case['fit'][i]:
                if lgs[i]:
                    for e in range(ne):
                        u = np.asarray(y)[e, c] * (norm + np.asarray(
                            std)[i]) + np.asarray(mean)[i]
                        env.assume(env.and_(u < 60, u > -60))
                c += 1
    w = env.array('w', (nm, n), smp=(-1, 1))
    u = env.array('u', (nm, n, n), smp=(-1, 1))
    batch = [env.array('aux', (ne, 1)), env.array('truth', (ne, n)),
             env.wrap(seed)]
    return mean, std, norm, y, env.wrap(seed), w, u, batch


class Fixed(object):
    pass


def make(case, what):
    n = len(case['fit'])
    nm = case.get('models', 1)
    log = case['log']

    def f(y, seed, mean, std, norm, w, u, aux, truth, seedb):
        name = case.get('tensor', 'x_parameters')
        tr = rf.trafo(n, mean, std, norm, log, name)
        m = rf.manager(n, nm, tr, name=name)
        ls = rf.ProbeLoss()
        ls.w = {'w': tf.unstack(w), 'u': tf.unstack(u)}
        sig = (tf.TensorSpec([None, sum(case['fit'])], tf.float64),
               m.data_handler.get_data_set_signature(),
               tf.TensorSpec([None, n], tf.float64))
        batch = (aux, truth, seedb)
        kw = dict(loss_module=ls, fit_paramater_list=case['fit'],
                  minimize_in_trafo_space=case['trafo'],
                  parameter_tensor_name=name)
        extra = case.get('extra', {})
        if what in ('terms', 'loss', 'grad'):
            kw.update(extra)
        r = run(what, m, ls, kw, sig, y, batch, seed)
        for md in m.models:
            assert md.calls and all(c[:2] == (False, name)
                                    for c in md.calls), 'training'
        if what in ('terms', 'loss', 'grad'):
            want = (name, what != 'terms',
                    extra.get('normalize_by_total_charge'),
                    extra.get('sort_loss_terms'))
            assert set(ls.kwargs) == {want}, 'arguments of the loss'
        return r

    def run(what, m, ls, kw, sig, y, batch, seed):
        if what == 'terms':
            fn = m.get_parameter_loss_function(
                input_signature=sig, reduce_to_scalar=False, **kw)
            return fn(y, batch, seed)
        if what == 'loss':
            if case.get('named'):
                fn = m.get_parameter_loss_function(
                    input_signature=sig[:2], seed='x_seed', **kw)
                r = fn(y, batch)
            else:
                fn = m.get_parameter_loss_function(
                    input_signature=sig, **kw)
                r = fn(y, batch, seed)
            return r
        if what == 'grad':
            fn = m.get_loss_and_gradients_function(input_signature=sig,
                                                   **kw)
            return fn(y, batch, seed)
        if what == 'hess':
            fn = m.get_hessian_function(input_signature=sig, **kw)
            r = fn(y, batch, seed)
            assert all(k[1:] == (True, False, False) for k in ls.kwargs)
            return r
        if what == 'opg':
            fn = m.get_opg_estimate_function(input_signature=sig, **kw)
            r = fn(y, batch, seed)
            assert all(k[1:] == (False, False, False) for k in ls.kwargs)
            return r
    return f


def at(x, *i):
    if hasattr(x, 'at') and x.shape == ():
        return x.at(0)
    a = x.arr() if hasattr(x, 'arr') else np.asarray(x)
    if not isinstance(a, np.ndarray) or a.ndim == 0:
        return a if not isinstance(a, np.ndarray) else a.item()
    return np.asarray(a)[i]


def loss_body(env, case):
    mean, std, norm, y, seed, w, u, batch = inputs(env, case)
    F = tfx.Fn(make(case, 'loss'), dtype='float64', eager=False)
    got = F(env, y, seed, mean, std, norm, w, u, *batch)
    ps, _ = full_params(env, case, np.asarray(y), np.asarray(seed),
                        np.asarray(mean), np.asarray(std), norm)
    want = rf.loss_value(env, ps, np.asarray(w), np.asarray(u),
                         np.asarray(batch[0])[:, 0])
    env.eq(at(got), want, 'loss at the full hypothesis')


def terms_body(env, case):
    mean, std, norm, y, seed, w, u, batch = inputs(env, case)
    F = tfx.Fn(make(case, 'terms'), dtype='float64', eager=False)
    got = F(env, y, seed, mean, std, norm, w, u, *batch)
    ps, _ = full_params(env, case, np.asarray(y), np.asarray(seed),
                        np.asarray(mean), np.asarray(std), norm)
    w, u = np.asarray(w), np.asarray(u)
    aux = np.asarray(batch[0])[:, 0]
    n, nm = len(case['fit']), len(w)
    env.eq(at(got[0]), sum(aux[1:], aux[0]) * nm, 'scalar term summed')
    for e, p in enumerate(ps):
        lin = sum(w[k][i] * p[i] for k in range(nm) for i in range(n))
        q = sum(p[j] * u[k][j][i] * p[i] for k in range(nm)
                for i in range(n) for j in range(n))
        env.eq(at(got[1], e), lin, 'event term summed over the ensemble')
        env.eq(at(got[2], e), q, 'last term summed over the ensemble')


def derivs(env, ps, w, u, i):
    """d loss / d p_i of event e (list over events)."""
    out = []
    for p in ps:
        t = 0
        for k in range(len(w)):
            t = t + w[k][i]
            for j in range(len(p)):
                t = t + (u[k][j][i] + u[k][i][j]) * p[j]
        out.append(t)
    return out


def grad_body(env, case):
    mean, std, norm, y, seed, w, u, batch = inputs(env, case)
    F = tfx.Fn(make(case, 'grad'), dtype='float64', eager=False)
    loss, g = F(env, y, seed, mean, std, norm, w, u, *batch)
    ps, ds = full_params(env, case, np.asarray(y), np.asarray(seed),
                         np.asarray(mean), np.asarray(std), norm)
    w, u = np.asarray(w), np.asarray(u)
    want = rf.loss_value(env, ps, w, u, np.asarray(batch[0])[:, 0])
    env.eq(at(loss), want, 'loss of the gradient function')
    c = 0
    for i, fit in enumerate(case['fit']):
        if not fit:
            continue
        d = derivs(env, ps, w, u, i)
        for e in range(len(ps)):
            env.eq(at(g, e, c), d[e] * ds[e][i],
                   'gradient is the derivative of the loss')
        c += 1


MASKS = [[True, True, True], [True, False, True], [False, True, False],
         [False, True, True]]
CASES = [{'fit': f, 'log': l, 'trafo': t}
         for f in MASKS for l, t in (
             (None, True), ([False, True, True], True), (None, False))]
EXTRA = [{'fit': [True, False, True], 'log': None, 'trafo': True, 'n': 2},
         {'fit': [False, True, True], 'log': [True, False, True],
          'trafo': True, 'models': 2, 'n': 2},
         {'fit': [False, True, True], 'log': None, 'trafo': True,
          'models': 3},
         {'fit': [True, True, True], 'log': True, 'trafo': True},
         {'fit': [True, True, False], 'log': None, 'trafo': True,
          'named': True, 'tensor': 'x_label'},
         {'fit': [True, False, True], 'log': None, 'trafo': True,
          'tensor': 'x_label', 'extra': {'sort_loss_terms': False,
                                         'normalize_by_total_charge': True}}]
TH = [{'fit': f, 'log': [True, False, True, False], 'trafo': True}
      for f in rf.fits(4)]
class TensorModel(object):
    """Predicts linear functions of its parameters and exclusions."""

    def __init__(self, n, c):
        self.num_parameters, self.c = n, c
        self.calls = []

    def get_tensors(self, data_batch_dict, is_training,
                    parameter_tensor_name='x_parameters'):
        d = data_batch_dict
        assert d['x_pulses'].shape[1] == 4 and d['x_pulses_ids'].shape[
            1] == 3, 'pulses'
        assert d['x_dom_charge'].shape[1:] == [86, 60, 1]
        self.calls.append((is_training, parameter_tensor_name))
        p = d[parameter_tensor_name]
        ex = tf.cast(tf.reduce_all(
            d['x_dom_exclusions'], axis=[1, 2, 3]), p.dtype)
        return {'lin': p * self.c[tf.newaxis],
                'doms': ex * tf.reduce_sum(p, axis=1)}


def tensors_body(env, case):
    """The tensors of the chosen model at the given parameters."""
    n, ne, nm, k = case['n'], case['ne'], case['models'], case['k']
    mean = env.array('mean', n, smp=(-1, 1))
    std = env.array('std', n, nonneg=True, smp=(0.2, 1.5))
    p = env.array('p', (ne, n), smp=(-2, 2))
    c = env.array('c', (nm, n), smp=(-2, 2))

    def f(p, mean, std, c):
        data = {'x_parameters_mean': mean, 'x_parameters_std': std}
        tr = fx.transformer([
            fx.tensor('x_parameters', [None, n], 'label', trafo=True),
            fx.tensor('x_pulses', [-1, 4], 'data', 'float32')], data)
        m = rf.manager(n, 0, tr)
        for i, ci in enumerate(tf.unstack(c)):
            md = TensorModel(n, ci)
            md.data_trafo = tr
            m._sub_components['models_%04d' % i] = md
        fn = m.get_model_tensors_function(
            **({} if case.get('default') else {'model_index': k}))
        r = fn(p)
        for i, md in enumerate(m.models):
            assert (len(md.calls) > 0) == (i == k), 'chosen model'
            assert all(not x and nm == 'x_parameters'
                       for x, nm in md.calls), 'training'
        return r['lin'], r['doms']
    lin, doms = tfx.Fn(f, dtype='float64', eager=False)(
        env, p, mean, std, c)
    p, c = np.asarray(p), np.asarray(c)
    env.check(tuple(lin.shape) == (ne, n) and tuple(doms.shape) == (ne,),
              'one set of tensors per event')
    for e in range(ne):
        for i in range(n):
            env.eq(at(lin, e, i), p[e, i] * c[k, i],
                   'model at the given parameters')
        env.eq(at(doms, e), sum(p[e][1:], p[e][0]), 'all DOMs are used')


B = ('3 (thorough 4) parameters, fit masks listed in the cases, up to 2 '
     'events and 3 models; probe loss p.u.p + w.p + aux with symbolic w, u; '
     'log parameters inside the +-60 clip')
HARNESSES = [
    Harness('loss', loss_body, CASES + EXTRA, [
        M + 'parameter_loss_function', M + 'get_parameter_loss_function'],
        B, thorough_cases=TH),
    Harness('terms', terms_body, EXTRA[:3] + EXTRA[-1:], [
        M + 'parameter_loss_function', M + 'get_parameter_loss_function'],
        B),
    Harness('gradients', grad_body, CASES + EXTRA[:3] + EXTRA[-1:], [
        M + 'get_loss_and_gradients_function'], B, thorough_cases=TH),
    Harness('tensors', tensors_body, [
        dict(n=2, ne=1, models=1, k=0, default=1),
        dict(n=3, ne=3, models=3, k=1)], [M + 'get_model_tensors_function'],
        'up to 3 parameters, 3 hypotheses, 3 models'),
]
ASSUMPTIONS = ['the model and the loss module are probes: get_tensors '
               'returns its inputs, the loss is a symbolic quadratic form']
