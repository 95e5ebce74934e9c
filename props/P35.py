"""Reconstruction trays: modules, shared functions and the output frame."""
import types
import numpy as np
import tensorflow as tf
from symx.runner import Harness
from props import icetray, fx
from props import recofx as rf
from props.P31 import Num, Scal
from egenerator.data.tensor import DataTensorList
from egenerator.data import trafo as trafo_mod
from egenerator.ic3 import reconstruction as ic3
from egenerator.manager.reconstruction import tray as tray_mod
from egenerator.manager.reconstruction import modules as mods
from egenerator.manager.reconstruction.modules import (
    covariance, opening_angle, fit_quality, reconstruction as rec)
from egenerator.manager.reconstruction.modules.utils import trafo as rtr

A = np.asarray


# ------------------------------------------------------------------ tray
class Clock(object):
    def __init__(self, env):
        self.env, self.t = env, [env.real('t0', nonneg=True, smp=(0, 10))]

    def default_timer(self):
        self.t.append(self.t[-1] + self.env.real(
            'dt%d' % len(self.t), nonneg=True, smp=(0, 1)))
        return self.t[-1]

    time = perf_counter = monotonic = default_timer


def tray(env, case):
    """Modules run in order and see exactly the earlier results."""
    n = case['n']
    clock = Clock(env)
    env.patch(tray_mod, 'timeit', clock)
    seen, made = [], []

    class Fake(object):
        def __init__(self, manager, loss_module, function_cache, **k):
            self.i = len(made)
            made.append((self, manager, loss_module, function_cache, k))

        def execute(self, batch, results):
            clock.default_timer()
            t = clock.t[-1]
            seen.append((self.i, batch, {k: dict(v) for k, v in
                                         results.items()}, t))
            out = {'a': 'value%d' % self.i}
            if case.get('bad') == self.i:
                out['runtime'] = 3.
            return out
    asked = []
    env.patch(tray_mod, 'misc', types.SimpleNamespace(
        load_class=lambda s: asked.append(s) or Fake))
    t = tray_mod.ReconstructionTray('man', 'loss')
    names = []
    for i in range(n):
        k = env.choose('name%d' % i, 0, 2)
        name = [None, 'reco', 'best'][k]
        want = name or 'module_%04d' % len(names)
        setting = env.real('s%d' % i)
        if want in names:
            env.raises(ValueError, lambda: t.add_module(
                'M%d' % i, name=name, x=setting), 'names are unique')
            del made[len(names):]
            del asked[len(names):]
        else:
            env.holds('module is added', lambda: t.add_module(
                'M%d' % i, name=name, x=setting) is None)
            names.append(want)
            env.check(asked[-1] == 'egenerator.manager.reconstruction.'
                      'modules.M%d' % i, 'class of the module')
            m = made[-1]
            env.check(len(made) == len(names) and m[1:3] == ('man', 'loss')
                      and m[3] is made[0][3] and list(m[4]) == ['x'],
                      'arguments of the module')
            env.eq(m[4]['x'], setting, 'settings of the module')
    bad = case.get('bad')
    if bad is not None and bad < len(names):
        env.raises(ValueError, lambda: t.execute('batch'),
                   'results contain a runtime')
        return
    for rnd in range(2):
        del seen[:]
        a = clock.t[-1]
        out = t.execute('batch%d' % rnd)
        env.check(set(out) == set(names), 'one result for every module')
        env.check([s[0] for s in seen] == list(range(len(names))),
                  'every module runs once, in order')
        tot = 0.
        for i, (k, b, r, now) in enumerate(seen):
            env.check(b == 'batch%d' % rnd, 'batch')
            env.check(set(r) == set(names[:i]) and all(
                r[names[j]]['a'] == 'value%d' % j for j in range(i)),
                'a module sees the results of all earlier ones')
            o = out[names[i]]
            env.check(set(o) == {'a', 'runtime'} and
                      o['a'] == 'value%d' % i, 'result of the module')
            env.le(0., o['runtime'], 'runtime is not negative')
            env.le(now - (seen[i - 1][3] if i else a) - (
                clock.t[-1] - a), o['runtime'], 'runtime')
            tot = tot + o['runtime']
        env.le(tot, clock.t[-1] - a, 'runtimes do not overlap')


# ----------------------------------------------------------------- cache
def cache(env, case):
    """Functions are found iff name and all settings are equal."""
    c = tray_mod.FunctionCache()
    have = []
    vals = [dict(fit=[env.int('a%d' % i, 0, 1), 1], space=env.int(
        'b%d' % i, 0, 1)) for i in range(case['n'])]
    for i in range(case['n']):
        name = 'fg'[env.choose('f%d' % i, 0, 1)]
        same = [f for k, s, f in have if k == name and s == vals[i]]
        got = c.get(name, dict(vals[i], fit=list(vals[i]['fit'])))
        env.check(got is (same[0] if same else None), 'lookup')

        def fun():
            return None
        fun.__name__ = name
        if same:
            env.raises(KeyError, lambda: c.add(fun, vals[i]),
                       'a function is only added once')
        else:
            env.holds('function is added', lambda: c.add(
                fun, vals[i]) is None)
            have.append((name, vals[i], fun))
        got = c.get(name, vals[i])
        env.check(got is (same[0] if same else fun), 'function is found')
    for k, s, f in have:
        env.check(c.get(k, s) is f, 'earlier functions stay')


# --------------------------------------------------- modules on one cache
def names_of(n):
    """Names of the functions the real manager returns."""
    tr = fx.transformer([
        fx.tensor('x_parameters', [None, n], 'label', trafo=True),
        fx.tensor('x_pulses', [None, 2], 'data')], {
            'x_parameters_mean': np.zeros(n),
            'x_parameters_std': np.ones(n)}, norm=1e-6)
    m = rf.manager(n, 1, tr)
    sig = [tf.TensorSpec([None, n], tf.float64)] * 3
    kw = dict(fit_paramater_list=[True] * n, minimize_in_trafo_space=True,
              seed=None, parameter_tensor_name='x_parameters',
              input_signature=sig)
    out = {}
    for k in ('parameter_loss', 'loss_and_gradients', 'hessian',
              'opg_estimate'):
        f = getattr(m, 'get_%s_function' % k)(loss_module=None, **kw)
        out[k] = f.__name__
    out['model_tensors'] = m.get_model_tensors_function().__name__
    return out


class Mat(object):
    """A matrix that knows where it was evaluated; products are opaque."""
    __array_ufunc__ = None

    def __init__(self, tag, space=None, point=None, used=None):
        self.tag, self.space, self.point, self.used = tag, space, point, used

    def astype(self, *a, **k):
        return self

    def times(self, other):
        used = self.used if self.used is not None else other.used
        used.extend((self, other))
        return Mat('product', used=used)

    __matmul__ = dot = times

    @property
    def T(self):                                             # noqa: N802
        return self


class MatNp(object):
    """numpy as far as the covariance module uses it."""

    def __init__(self):
        self.used = []
        self.linalg = types.SimpleNamespace(
            LinAlgError=np.linalg.LinAlgError, inv=self.inv,
            multi_dot=self.multi_dot)

    def __getattr__(self, k):
        return getattr(np, k)

    def inv(self, h):
        self.used.append(h)
        return Mat('inverse', used=self.used)

    def matmul(self, a, b):
        return a.times(b)

    dot = matmul

    def multi_dot(self, ms):
        out = ms[0]
        for m in ms[1:]:
            out = out.times(m)
        return out


class Man(object):
    """Functions that depend on the full hypothesis in the true space."""

    def __init__(self, env, tr, n, mean, std, norm, batch, seed):
        self.env, self.data_trafo, self.n = env, tr, n
        self.mean, self.std, self.norm = mean, std, norm
        self.batch, self.seed = batch, seed
        self.w = env.reals('weight', n)
        self.recos, self.made = [], 0
        self.models = [types.SimpleNamespace(
            get_index=lambda k: {'time': 1, 'zenith': 0, 'azimuth': 1}[k])]
        self.configuration = types.SimpleNamespace(config={'config': {
            'I3ParticleMapping': {'zenith': 'zenith', 'azimuth': 'azimuth'}}})
        self.data_handler = types.SimpleNamespace(
            get_data_set_signature=lambda: ('sig',),
            tensors=DataTensorList([
                fx.tensor('x_dom_charge', [None, 86, 60, 1], 'data'),
                fx.tensor('x_pulses', [None, 2], 'data'),
                fx.tensor('x_pulses_ids', [None, 3], 'data'),
                fx.tensor('x_seed', [None, n], 'misc')]))

    def full(self, s, x, seed):
        x = A(x)
        x = x.reshape(len(x) if x.ndim > 1 else 1, -1)
        out, c = [], 0
        self.env.check(x.shape == (1, sum(s['fit_paramater_list'])),
                       'number of fitted parameters')
        for i in range(self.n):
            if s['fit_paramater_list'][i]:
                v = x[0, c]
                c += 1
                if s['minimize_in_trafo_space']:
                    v = v * (self.norm + self.std[i]) + self.mean[i]
            else:
                v = A(seed)[0, i]
            out.append(v)
        return out

    def value(self, tag, p):
        t = 0
        for v, w in zip(p, self.w):
            t = t + w * v + v * v
        return t

    def make(self, kind, s, ret):
        self.made += 1
        env = self.env
        env.check(s['loss_module'] == 'lm', 'loss module')

        def f(parameters_trafo, data_batch, seed=s['seed']):
            env.check(data_batch is self.batch, 'batch')
            return ret(s, parameters_trafo, seed)
        f.__name__ = NAMES_OF[kind]
        return f

    def get_parameter_loss_function(self, **s):
        return self.make('parameter_loss', s, lambda s, x, seed: Num(
            self.value('loss', self.full(s, x, seed))))

    def get_loss_and_gradients_function(self, **s):
        return self.make('loss_and_gradients', s, lambda s, x, seed: (Scal(
            self.value('loss', self.full(s, x, seed))), Num(x)))

    def get_hessian_function(self, **s):
        return self.make('hessian', s, lambda s, x, seed: self.mat(
            'hess', s, x, seed))

    def get_opg_estimate_function(self, **s):
        return self.make('opg_estimate', s, lambda s, x, seed: self.mat(
            'opg', s, x, seed))

    def mat(self, tag, s, x, seed):
        p = self.full(s, x, seed)
        return types.SimpleNamespace(numpy=lambda: Mat(
            tag, s['minimize_in_trafo_space'], p))

    def get_model_tensors_function(self, model_index=0):
        def f(x):
            return None
        f.__name__ = NAMES_OF['model_tensors']
        return f

    def reconstruct_events(self, batch, loss_module,
                           loss_and_gradients_function, fit_paramater_list,
                           minimize_in_trafo_space=True, seed='x_seed',
                           parameter_tensor_name='x_parameters', **k):
        env = self.env
        nf = sum(fit_paramater_list)
        i = len(self.recos)
        probe = env.array('probe%d' % i, (1, nf))
        v, g = loss_and_gradients_function(probe, batch, seed)
        s = dict(fit_paramater_list=fit_paramater_list,
                 minimize_in_trafo_space=minimize_in_trafo_space)
        env.eq(v.numpy().astype('d') if hasattr(v, 'numpy') else v,
               self.value('loss', self.full(s, probe, seed)),
               'objective belongs to the settings of the fit')
        best = env.array('best%d' % i, (1, nf))
        self.recos.append((fit_paramater_list, minimize_in_trafo_space, seed,
                           best, k))
        return best, types.SimpleNamespace(success=True)


NAMES_OF = {}


def shared(env, case):
    """Modules that share a cache use functions for their own settings."""
    if not NAMES_OF:
        NAMES_OF.update(names_of(2))
    env.check(len(set(NAMES_OF.values())) == len(NAMES_OF),
              'names of different functions')
    env.patch_np(rec, rtr, trafo_mod)
    n = 2
    mean, std = env.array('mean', (n,)), env.array('std', (n,), pos=True)
    norm = env.real('norm', pos=True)
    seed = env.array('seed', (1, n))
    tr = rf.trafo(n, mean, std, norm, [False] * n)
    batch = ('q', 'p', 'i', seed)
    man = Man(env, tr, n, A(mean), A(std), norm, batch, seed)
    t = tray_mod.ReconstructionTray(man, 'lm')
    spec = []
    for i, kind in enumerate(case['mods']):
        fit = [bool(env.choose('fit%d_%d' % (i, k), 0, 1))
               for k in range(n)]
        trafo = bool(env.choose('trafo%d' % i, 0, 1))
        if kind == 'R':
            if not any(fit):
                fit = [True] * n
            t.add_module('Reconstruction', name='m%d' % i,
                         fit_paramater_list=fit, seed_tensor_name='x_seed',
                         minimize_in_trafo_space=trafo)
        else:
            kw = dict(fit_paramater_list=[True] * n, reco_key='m0',
                      minimize_in_trafo_space=trafo)
            cls = {'C': 'CovarianceMatrix',
                   'A': 'CircularizedAngularUncertainty',
                   'G': 'GoodnessOfFit'}[kind]
            if kind == 'G':
                kw.update(add_per_dom_calculation=fit[0])
            t.add_module(cls, name='m%d' % i, **kw)
        spec.append((kind, fit, trafo))
    before = man.made
    # only reconstructions and covariances are executed here
    for i, (kind, fit, trafo) in enumerate(spec):
        mod = t.modules[i]
        if kind == 'R':
            out = mod.execute(batch, {})
            f, tf_, sd, best, k = man.recos[-1]
            env.check(list(f) == fit and tf_ is trafo, 'settings of the fit')
            want = man.full(dict(fit_paramater_list=fit,
                                 minimize_in_trafo_space=trafo), best, seed)
            env.eq(out['result'], env.wrap(np.array([want], dtype=object)),
                   'result')
            env.eq(out['loss_seed'], man.value('loss', A(seed)[0]),
                   'loss of the seed')
            env.eq(out['loss_reco'], man.value('loss', want),
                   'loss of the result')
        elif kind == 'C':
            point = env.array('point%d' % i, (1, n))
            res = {'m0': {'result': seed, 'result_trafo': point,
                          'result_object': None}}
            np_ = MatNp()
            env.patch(covariance, 'np', np_)
            env.patch(tr, 'inverse_transform_cov',
                      lambda cov_trafo, tensor_name: cov_trafo)
            mod.execute(batch, res)
            used = {g.tag: g for g in np_.used if g.point is not None}
            env.check(sorted(used) == ['hess', 'opg'],
                      'Hessian and outer product of gradients')
            for tag, g in used.items():
                env.check(g.space is trafo, 'space of the ' + tag)
                want = man.full(dict(fit_paramater_list=[True] * n,
                                     minimize_in_trafo_space=trafo), point,
                                seed)
                for x, y in zip(g.point, want):
                    env.eq(x, y, 'point of the ' + tag)
    env.check(man.made == before, 'no further functions')


def warm(env, fits, n, batch=False):
    """Reconstructions with other settings have filled the cache before."""
    def before(man, cache):
        for i, fit in enumerate(fits):
            rec.Reconstruction(
                man, 'lm', cache, [bool(f) for f in fit], 'reco',
                seed_from_previous_module=True,
                minimize_in_trafo_space=bool(env.choose('warm%d' % i, 0, 1)))
    return before


def angular(env, case):
    """The scan uses functions for its own settings."""
    from props import P33
    P33.scan(env, case, warm(env, case['fits'], len(case['order'])))


def quality(env, case):
    """The goodness of fit uses functions for its own settings."""
    from props import P34
    P34.execute(env, case, warm(env, case['fits'], len(case['fit'])))


# ------------------------------------------------------------------- ic3
PARAMS = ['cascade_x', 'cascade_y', 'cascade_z', 'cascade_zenith',
          'cascade_azimuth', 'cascade_energy', 'cascade_time', 'Absorption']
MAPPING = {'azimuth': 'cascade_azimuth', 'energy': 'cascade_energy',
           'time': 'cascade_time', 'x': 'cascade_x', 'y': 'cascade_y',
           'z': 'cascade_z', 'zenith': 'cascade_zenith'}




def frame(env, case):
    """Settings reach the modules; results reach the frame."""
    order = case['order']
    names = [PARAMS[i] for i in order]
    n = len(names)
    logs = [bool(env.choose('log%d' % i, 0, 1)) if i in case['logs']
            else False for i in range(n)]
    index = names.index
    default = bool(env.choose('default', 0, 1))
    over = {names[i]: bool(env.choose('fit%d' % i, 0, 1))
            for i in case['fit']}
    config = {'I3ParticleMapping': dict(MAPPING)} if case['map'] else {}
    seeds = case['seeds']
    asked = {}
    man = types.SimpleNamespace(
        configuration=types.SimpleNamespace(config={'config': config}),
        models=[types.SimpleNamespace(
            parameter_names=names, num_parameters=n, num_variables=(1, 2),
            get_index=index, get_name=lambda i: names[i])],
        data_trafo=types.SimpleNamespace(data={'tensors': {
            'x_parameters': types.SimpleNamespace(
                trafo_log=logs, dtype='float32')}}),
        data_handler=types.SimpleNamespace(
            get_data_from_frame=lambda f: (case.get('num', 1), ('b', f))))

    def configurator(**k):
        asked.update(k)
        return types.SimpleNamespace(manager=man, loss_module='lm')
    made = []

    def load(s):
        kind = s.split('.')[-1]

        class Fake(object):
            def __init__(self, manager, loss_module, function_cache, **k):
                made.append((kind, k, self, manager, loss_module))

            def execute(self, batch, results):
                self.seen = batch, sorted(results)
                return dict(self.out)
        return Fake
    env.patch(ic3, 'ManagerConfigurator', configurator)
    env.patch(ic3, 'print', lambda *a: None)
    env.patch(ic3, 'float', lambda x: x.item() if isinstance(
        x, np.ndarray) else x)
    env.patch_np(ic3)
    env.patch(tray_mod, 'misc', types.SimpleNamespace(load_class=load))
    m = ic3.EventGeneratorReconstruction(None)
    gof = {'num_samples': 7}
    if 'gof' in case:
        gof.update(case['gof'])
    m.params.update(
        seed_keys=seeds if len(seeds) > 1 else seeds[0],
        model_names=case['models'], model_base_dir=case.get('base'),
        output_key='out', pulse_key='pulses', dom_exclusions_key='bad',
        time_exclusions_key='times', add_circular_err=case.get('circ', 0),
        add_covariances=case.get('cov', 0), add_goodness_of_fit='gof' in case,
        label_key='labels', snowstorm_key='snow', num_threads=3,
        minimize_in_trafo_space=case.get('trafo', True),
        tf_optimizer_settings={'x_tolerance': .5},
        reco_optimizer_interface='shog',
        minimize_parameter_default_value=default,
        minimize_parameter_dict=over, goodness_of_fit_settings=gof,
        scipy_optimizer_settings={'method': 'X'})
    m.Configure()
    models = case['models']
    models = [models] if isinstance(models, str) else models
    env.check(list(asked['manager_dirs']) == [
        case['base'] + '/' + k if case.get('base') else k for k in models],
        'directories of the models')
    env.check(list(asked['misc_setting_updates']['seed_names']) == seeds,
              'seeds that are loaded')
    env.check(not asked['load_labels'] and asked['data_setting_updates'] == {
        'pulse_key': 'pulses', 'dom_exclusions_key': 'bad',
        'time_exclusions_key': 'times'} and asked['num_threads'] == 3,
        'settings of the data')
    fit = [over.get(k, default) for k in names]
    kinds = [k[0] for k in made]
    env.check(kinds == ['Reconstruction'] * len(seeds) + [
        'SelectBestReconstruction'] + ['CovarianceMatrix'] * bool(
            case.get('cov')) + ['GoodnessOfFit'] * ('gof' in case) + [
        'CircularizedAngularUncertainty'] * bool(case.get('circ')),
        'modules')
    mod_names = list(m.reco_tray.module_names)
    by = {}
    for name, (kind, k, obj, a, b) in zip(mod_names, made):
        by.setdefault(kind, []).append((name, k, obj))
        env.check(a is man and b == 'lm', 'manager and loss')
        if kind != 'SelectBestReconstruction':
            env.check(list(k['fit_paramater_list']) == fit,
                      'fitted parameters')
            env.check(k.get('minimize_in_trafo_space', True) ==
                      case.get('trafo', True), 'space of the fit')
            env.check(k.get('parameter_tensor_name', 'x_parameters') ==
                      'x_parameters', 'parameter tensor')
        if kind not in ('Reconstruction', 'SelectBestReconstruction'):
            env.check(k['reco_key'] == by['SelectBestReconstruction'][0][0],
                      'modules use the best reconstruction')
        if kind in ('GoodnessOfFit', 'CircularizedAngularUncertainty'):
            c = by.get('CovarianceMatrix')
            env.check(k.get('covariance_key') == (c[0][0] if c else None),
                      'covariance of later modules')
    for _, k, _ in by['Reconstruction'] + by.get(
            'CircularizedAngularUncertainty', []):
        env.check(k.get('scipy_optimizer_settings') == {'method': 'X'},
                  'settings of the optimizer')
    for _, k, _ in by['Reconstruction']:
        env.check(k.get('reco_optimizer_interface') == 'shog' and k.get(
            'tf_optimizer_settings') == {'x_tolerance': .5},
            'settings of the optimizer')
    env.check([k['seed_tensor_name'] for _, k, _ in by[
        'Reconstruction']] == seeds and not any(
            k.get('seed_from_previous_module') for _, k, _ in by[
                'Reconstruction']), 'one reconstruction per seed')
    env.check(list(by['SelectBestReconstruction'][0][1]['reco_names']) == [
        x[0] for x in by['Reconstruction']], 'best of all seeds')
    if 'gof' in case:
        k = by['GoodnessOfFit'][0][1]
        env.check(k['num_samples'] == 7 and k.get(
            'reconstruct_samples', True) == case['gof'].get(
                'reconstruct_samples', True) and k.get(
            'add_per_dom_calculation', True) == case['gof'].get(
                'add_per_dom_calculation', True), 'goodness of fit settings')
    # results
    fr = {}
    if case.get('num', 1) != 1:
        env.raises(AssertionError, lambda: m.Physics(fr),
                   'only one event per frame')
        env.check(not m.pushed, 'nothing is pushed')
        return
    clock = Clock(env)
    env.patch(tray_mod, 'timeit', clock)
    best = env.array('best', (1, n))
    for name, _, obj in by['Reconstruction']:
        obj.out = {'result': 'not the best'}
    l1, l2 = env.real('loss_reco'), env.real('loss_seed')
    by['SelectBestReconstruction'][0][2].out = {
        'result': best, 'loss_reco': l1, 'loss_seed': l2,
        'result_object': types.SimpleNamespace(success='yes')}
    covs = {}
    if case.get('cov'):
        covs = {k: env.array('cov_' + k, (n, n))
                for k in ('cov', 'cov_sand_trafo')}
        by['CovarianceMatrix'][0][2].out = covs
    g = {}
    if 'gof' in case:
        g = {k: env.real('gof_' + k) for k in GOF}
        if case['gof'].get('add_per_dom_calculation', True):
            g['dom_p_value1'] = env.array('p1', (86, 60))
            g['dom_p_value2'] = env.array('p2', (86, 60))
        if case['gof'].get('reconstruct_samples', True):
            g['sample_reco_cov'] = env.array('scov', (n, n))
            g['sample_reco_bias'] = env.array('bias', (n,))
        by['GoodnessOfFit'][0][2].out = g
    circ = env.real('circ')
    if case.get('circ'):
        by['CircularizedAngularUncertainty'][0][2].out = {
            'circular_unc': circ, 'circular_unc_deg': 5.}
    m.Physics(fr)
    env.check(m.pushed == [fr] or (len(m.pushed) == 1 and
                                   m.pushed[0] is fr), 'frame is pushed')
    for kind, k, obj, a, b in made:
        env.check(obj.seen[0][1] is fr, 'data of the frame')
    out = fr['out']
    want = {k: A(best)[0, i] for i, k in enumerate(names)}
    want.update(loss_reco=l1, loss_seed=l2)
    if 'gof' in case:
        want.update({v: g[k] for k, v in GOF.items()})
        if 'sample_reco_bias' in g:
            for i, k in enumerate(names):
                want[k + '_sample_reco_bias'] = A(
                    g['sample_reco_bias'])[i]
    if case.get('circ'):
        want['circular_unc'] = circ
    for k in sorted(want):
        env.check(k in out, 'output ' + k)
        env.eq(out[k], want[k], 'output ' + k)
    env.check(out['minimization_success'] == 'yes', 'success')
    for k in mod_names:
        env.le(0., out['runtime_' + k], 'runtimes')
    covs = dict(covs)
    if 'sample_reco_cov' in g:
        covs['goodness_of_fit'] = g['sample_reco_cov']
    lab = [('log_' if l else '') + k for k, l in zip(names, logs)]
    for key in sorted(covs):
        c = fr['out_cov_matrix_' + key]
        env.check(sorted(c) == sorted('%s_%s' % (lab[i], lab[j])
                                      for i in range(n)
                                      for j in range(i, n)),
                  'entries of the covariance matrix')
        for i in range(n):
            for j in range(i, n):
                env.eq(c['%s_%s' % (lab[i], lab[j])], A(covs[key])[i, j],
                       'covariance matrix')
    extra = set(fr) - {'out'} - {'out_cov_matrix_' + k for k in covs}
    if 'dom_p_value1' in g:
        for s, k in (('1', 'dom_p_value1'), ('2', 'dom_p_value2')):
            q = fr['out_GoodnessOfFit_%ssided' % s]
            extra.discard('out_GoodnessOfFit_%ssided' % s)
            env.check(len(q) == 86 * 60, 'DOMs')
            a = A(g[k])
            env.eq(env.wrap([q[icetray.OMKey(x + 1, y + 1)]
                             for x in range(86) for y in range(60)]),
                   env.wrap(a.reshape(-1)), 'p value of a DOM')
    if case['map']:
        p = fr['out_I3Particle']
        extra.discard('out_I3Particle')
        for k, v in MAPPING.items():
            o = p.pos if k in 'xyz' else p.dir if k in (
                'zenith', 'azimuth') else p
            env.eq(getattr(o, k), A(best)[0, index(v)], 'particle ' + k)
        env.check(p.shape == 'InfiniteTrack', 'shape of the particle')
    env.check(not extra, 'further keys')


GOF = {'event_p_value_1sided': 'goodness_of_fit_1sided',
       'event_p_value_2sided': 'goodness_of_fit_2sided',
       'loss_sample_min': 'goodness_loss_sample_min',
       'loss_sample_max': 'goodness_loss_sample_max',
       'loss_sample_mean': 'goodness_loss_sample_mean',
       'loss_sample_median': 'goodness_loss_sample_median',
       'loss_sample_std': 'goodness_loss_sample_std',
       'loss_data_fit': 'goodness_loss_data_fit'}
ID = list(range(8))
PERM = [3, 7, 0, 5, 1, 6, 4, 2]
FRAME = [
    dict(order=ID, logs=[5], fit=[0, 4], map=1, seeds=['a'], models='m',
         base='/b'),
    dict(order=PERM, logs=[0, 7], fit=[7], map=1, seeds=['a', 'b', 'c'],
         models=['m', 'n'], cov=1, gof={'reconstruct_samples': True},
         circ=1, base='/b'),
    dict(order=PERM[:5], logs=[], fit=[2], map=0, seeds=['b', 'a'],
         models=['m'], cov=1, trafo=False),
    dict(order=ID, logs=[5], fit=[5], map=1, seeds=['a'], models='m',
         gof={'reconstruct_samples': False}, circ=1, trafo=False),
    dict(order=ID, logs=[3], fit=[5], map=0, seeds=['a'], models='m',
         gof={'add_per_dom_calculation': False}, cov=1, base='/b'),
    dict(order=ID, logs=[3], fit=[5], map=0, seeds=['a'], models='m', num=2)]

T = 'egenerator.manager.reconstruction.tray.'
M = 'egenerator.manager.reconstruction.modules.'
I = 'egenerator.ic3.reconstruction.EventGeneratorReconstruction.'
HARNESSES = [
    Harness('tray', tray, [dict(n=3), dict(n=2, bad=1)], [
        T + 'ReconstructionTray.add_module',
        T + 'ReconstructionTray.execute'], 'up to 3 (4) modules',
        thorough_cases=[dict(n=4)]),
    Harness('cache', cache, [dict(n=3)], [
        T + 'FunctionCache.add', T + 'FunctionCache.get'],
        'up to 3 (4) operations', thorough_cases=[dict(n=4)],
        max_paths=20000),
    Harness('shared', shared, [dict(mods=k) for k in (
        'RR', 'RC', 'CRC', 'GR', 'AR')], [
            T + 'FunctionCache.get', M + 'reconstruction.Reconstruction',
            M + 'CovarianceMatrix',
            M + 'fit_quality.GoodnessOfFit',
            M + 'opening_angle.CircularizedAngularUncertainty'],
        '2 parameters, up to 3 modules', thorough_cases=[
            dict(mods=k) for k in ('RRR', 'GAR', 'AGC')], max_paths=20000),
    Harness('angular', angular, [
        dict(order=[1, 0, 2], trafo=t, points=2, cov=1, fits=f)
        for t in (True, False) for f in (
            [[1, 1, 1]], [[0, 1, 0], [1, 1, 1]])], [
        M + 'opening_angle.CircularizedAngularUncertainty'],
        '3 parameters, 2 directions, up to 2 earlier modules'),
    Harness('quality', quality, [
        dict(fit=[True] * 3, log=[False] * 3, trafo=t, samples=2,
             pe=[[1], [0]], reco=1, norm=1, dom=d, doms=[(3, 4)],
             fits=[[1, 1, 1]])
        for t, d in ((True, 0), (False, 0))], [
        M + 'fit_quality.GoodnessOfFit'],
        '3 parameters, 2 samples, 1 earlier module', thorough_cases=[
            dict(fit=[True] * 3, log=[False] * 3, trafo=False, samples=2,
                 pe=[[1], [0]], reco=1, norm=1, dom=1, doms=[(3, 4)],
                 fits=[[1, 1, 1]])]),
    Harness('frame', frame, FRAME, [I + 'Configure', I + 'Physics',
                                    I + 'write_cov_matrix'],
            'up to 8 parameters and 3 seeds')]
ASSUMPTIONS = ['icecube is not installed: stand-ins for its classes',
               'results of modules are arbitrary (their content: P05, P31 to '
               'P34)']
