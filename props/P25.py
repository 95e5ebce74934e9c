"""The table of a test reconstruction."""
import os
import tempfile
import types
import numpy as np
import pandas as pd
from symx.runner import Harness
from egenerator.data.tensor import DataTensorList
from egenerator.manager import source as srcm
from props import fx
from props import recofx as rf

A = np.asarray
OUT = os.path.join(tempfile.gettempdir(), 'symx_table.v1.hdf5')


class Value(object):
    def __init__(self, v):
        self.v = v

    def numpy(self):
        return self.v

    def __format__(self, spec):
        return '0'


class Batches(object):
    """Tensors x_seed, x_parameters, a_aux and another seed per event."""

    def __init__(self, env, case):
        n = case['n']
        self.env, self.asked, self.batches = env, [], []
        self.tensors = DataTensorList([
            fx.tensor('x_label', [None, n], 'label', trafo=True),
            fx.tensor('x_seed', [None, n], 'misc'),
            fx.tensor('x_other', [None, n], 'misc'),
            fx.tensor('a_aux', [None, 1], 'data')])
        for e in range(case['events']):
            d = {k: env.array('%s_%d' % (k, e), (1, n))
                 for k in ('x_label', 'x_seed', 'x_other')}
            d['a_aux'] = env.array('aux_%d' % e, (1, 1))
            self.batches.append(tuple(d[k] for k in self.tensors.names))

    def get_batch_generator(self, **kw):
        self.asked.append(kw)
        return iter(self.batches)

    def get_data_set_signature(self):
        return 'signature'

    def part(self, e, name):
        return A(self.batches[e][self.tensors.get_index(name)])[0]


def results(env, case, n, e, best):
    """Results of the modules of a tray for one event."""
    r = {'reco': {'result': env.array('reco_%d' % e, (1, n)),
                  'seed_from_previous_module': bool(case.get('random')),
                  'seed_tensor_name': 'sel_reco_random'
                  if case.get('random') else best}}
    if case.get('cov'):
        r['covariance'] = {k: env.array('%s_%d' % (k, e), (n, n), pos=True)
                           for k in ('cov', 'cov_fit', 'cov_sand',
                                     'cov_sand_fit')}
    if case.get('gof'):
        r['GoodnessOfFit'] = {'event_p_value_%dsided' % k: env.real(
            'p%d_%d' % (k, e)) for k in (1, 2)}
        if case['gof'] == 'samples':
            r['GoodnessOfFit'].update(
                sample_reco_bias=env.array('bias_%d' % e, (n,)),
                sample_reco_cov=env.array('scov_%d' % e, (n, n), pos=True))
    if case.get('angle'):
        r['CircularizedAngularUncertainty'] = {
            'circular_unc': env.real('circ_%d' % e)}
    if case.get('mcmc'):
        k = env.choose('accepted%d' % e, 0, case['mcmc'])
        r['mcmc'] = {'samples': env.array('samples_%d' % e, (k, n)),
                     'log_prob_values': env.array('prob_%d' % e, (k,))}
    return r


def table(env, case):
    """Every event has its own row of true, seed and fitted values."""
    env.patch_np(srcm)
    n, ne = case['n'], case['events']
    data = Batches(env, case)
    names = ['p%d' % i for i in range(n)]
    man = srcm.SourceManager()
    model = types.SimpleNamespace(
        parameter_names=names, num_parameters=n, num_variables=(2, 3),
        get_index=names.index, data_trafo=types.SimpleNamespace(data={
            'tensors': data.tensors}))
    fx.component(man, sub={'data_handler': data, 'models_0000': model})
    man._configuration = fx.conf(man, settings={'config': {
        'I3ParticleMapping': {'zenith': 'p1', 'azimuth': 'p0'}}})
    seeds = case.get('seed', ['x_seed'])
    many = [seeds] if isinstance(seeds, str) else list(seeds)
    best = [many[env.choose('best%d' % e, 0, len(many) - 1)]
            for e in range(ne)]
    res = [results(env, case, n, e, best[e]) for e in range(ne)]
    trays, frames = [], []

    class Tray(object):
        def __init__(self, manager, loss_module):
            env.check(manager is man and loss_module == 'loss module',
                      'tray')
            self.modules, self.names, self.n = [], [], 0
            trays.append(self)

        def add_module(self, module, name=None, **kw):
            env.check(name not in self.names, 'names of the modules')
            self.names.append(name)
            self.modules.append((module, name, kw))

        def execute(self, batch):
            env.check(batch is data.batches[self.n], 'batch of the event')
            self.n += 1
            return res[self.n - 1]

    class Frame(pd.DataFrame):
        def to_hdf(self, path, **kw):
            frames.append((path, kw, {c: list(self[c]) for c in self}))
    env.patch(srcm, 'ReconstructionTray', Tray)
    env.patch(srcm, 'pd', types.SimpleNamespace(
        DataFrame=lambda *a, **k: Frame(*a, **k), concat=pd.concat))
    env.patch(srcm, 'print', lambda *a: None)
    w = env.array('w', n, smp=(-1, 1))

    def loss(batch):
        d = dict(zip(data.tensors.names, batch))
        p, x = A(d['x_label']), A(d['a_aux'])
        assert p.shape == (1, n)
        return sum((p[0, i] * A(w)[i] for i in range(n)), x[0, 0])

    def concrete(function, input_signature, **kw):
        env.check(function == man.get_loss and kw['loss_module'] ==
                  'loss module' and kw['is_training'] is False and
                  kw['parameter_tensor_name'] == 'x_label' and
                  kw['opt_config']['l1_regularization'] == 0 and
                  kw['opt_config']['l2_regularization'] == 0,
                  'loss without regularization')
        return lambda batch: Value(loss(batch))
    env.patch(man, 'get_concrete_function', concrete)
    mask = [bool(env.choose('default', 0, 1))] * n if case.get(
        'masks') else [True] * n
    given = {'p1': not mask[1]} if case.get('masks') else {}
    config = {'data_iterator_settings': {'test': {'batch_size': 1}},
              'reconstruction_settings': {
        'minimize_in_trafo_space': case['trafo'],
        'minimize_parameter_default_value': mask[0],
        'minimize_parameter_dict': given, 'reco_output_file': OUT,
        'parameter_tensor_name': 'x_label', 'seed': seeds,
        'calculate_covariance_matrix': bool(case.get('cov')),
        'calculate_goodness_of_fit': bool(case.get('gof')),
        'estimate_angular_uncertainty': bool(case.get('angle')),
        'run_mcmc': bool(case.get('mcmc')), 'make_1d_llh_scans': False,
        'reco_optimizer_interface': 'tfp', 'scipy_optimizer_settings': 's',
        'tf_optimizer_settings': 't'}}
    if case.get('random'):
        config['reconstruction_settings']['num_random_seeds'] = 2
    man.reconstruct_testdata(config, 'loss module')
    mask = [given.get(k, m) for k, m in zip(names, mask)]
    check_tray(env, case, trays, mask, many)
    check_mcmc(env, case, frames[:-1], names, res)
    env.check(data.asked == [{'batch_size': 1}], 'test data')
    # table
    path, kw, tab = frames[-1]
    env.check(path == OUT and kw.get('key') == 'Variables' and
              kw.get('mode') == 'w', 'output file')
    cols = {}
    for i, k in enumerate(names):
        cols[k] = [data.part(e, 'x_label')[i] for e in range(ne)]
        cols[k + '_reco'] = [A(res[e]['reco']['result'])[0, i]
                             for e in range(ne)]
        cols[k + '_seed'] = [data.part(e, many[0] if case.get(
            'random') else best[e])[i] for e in range(ne)]
        if case.get('cov'):
            for c, q in (('_unc', 'cov'), ('_unc_fit', 'cov_fit'),
                         ('_unc_sandwhich', 'cov_sand'),
                         ('_unc_sandwhich_fit', 'cov_sand_fit')):
                cols[k + c] = [env.fn('sqrt', A(res[e]['covariance'][q])[
                    i, i]) for e in range(ne)]
        if case.get('gof') == 'samples':
            cols[k + '_unc_samples'] = [env.fn('sqrt', A(res[e][
                'GoodnessOfFit']['sample_reco_cov'])[i, i])
                for e in range(ne)]
            cols[k + '_sample_reco_bias'] = [A(res[e]['GoodnessOfFit'][
                'sample_reco_bias'])[i] for e in range(ne)]
    if case.get('cov'):
        for c, q in (('cov_zenith_azimuth', 'cov'),
                     ('cov_fit_zenith_azimuth', 'cov_fit')):
            cols[c] = [A(res[e]['covariance'][q])[1, 0] for e in range(ne)]
    if case.get('angle'):
        cols['circular_unc'] = [res[e]['CircularizedAngularUncertainty'][
            'circular_unc'] for e in range(ne)]
    if case.get('gof'):
        for k in ('event_p_value_1sided', 'event_p_value_2sided'):
            cols[k] = [res[e]['GoodnessOfFit'][k] for e in range(ne)]
    for k, suf in (('loss_true', ''), ('loss_reco', '_reco'),
                   ('loss_seed', '_seed')):
        cols[k] = [sum((cols[names[i] + suf][e] * A(w)[i]
                        for i in range(n)), data.part(e, 'a_aux')[0])
                   for e in range(ne)]
    env.check(set(cols) <= set(tab), 'columns of the table')
    for k in sorted(cols):
        env.check(len(tab.get(k, [])) == ne, 'one row per event')
        for e in range(min(ne, len(tab.get(k, [])))):
            env.eq(tab[k][e], cols[k][e], 'column ' + k)


def check_tray(env, case, trays, mask, many):
    env.check(len(trays) == 1, 'one tray')
    mods = trays[0].modules
    kind = {}
    for m, name, kw in mods:
        kind.setdefault(m, []).append((name, kw))
    order = [name for m, name, kw in mods]
    recos = kind['Reconstruction']
    for name, kw in recos:
        env.check(kw['fit_paramater_list'] == mask and
                  kw['minimize_in_trafo_space'] is case['trafo'] and
                  kw['parameter_tensor_name'] == 'x_label' and
                  kw['reco_optimizer_interface'] == 'tfp' and
                  kw['tf_optimizer_settings'] == 't',
                  'settings of the reconstructions')
        env.check(kw.get('randomize_seed', False) or
                  kw['scipy_optimizer_settings'] == 's',
                  'settings of the optimizer')
    direct = [kw['seed_tensor_name'] for name, kw in recos
              if not kw.get('seed_from_previous_module', False)
              and not kw.get('randomize_seed', False)]
    env.check(sorted(direct) == sorted(many), 'one fit per seed')
    sel = dict(kind['SelectBestReconstruction'])
    final = sel['reco']['reco_names']
    plain = [name for name, kw in recos if not kw.get('randomize_seed')]
    env.check(sorted(final) == sorted(plain), 'candidates of the best fit')
    if case.get('random'):
        rand = [name for name, kw in recos if kw.get('randomize_seed')]
        env.check(len(rand) == 2 and all(
            kw['seed_tensor_name'] == many[0] for name, kw in recos
            if name in rand), 'random seeds')
        again = [kw for name, kw in recos
                 if kw.get('seed_from_previous_module')]
        env.check(len(again) == 1 and sorted(sel[again[0][
            'seed_tensor_name']]['reco_names']) == sorted(rand),
            'best random seed')
    env.check(all(order.index(k) < order.index('reco') for k in final),
              'order of the modules')
    for m, key in (('CovarianceMatrix', 'cov'), ('GoodnessOfFit', 'gof'),
                   ('CircularizedAngularUncertainty', 'angle'),
                   ('MarkovChainMonteCarlo', 'mcmc')):
        env.check(len(kind.get(m, [])) == bool(case.get(key)),
                  'requested modules')
        for name, kw in kind.get(m, []):
            env.check(kw['reco_key'] == 'reco' and kw[
                'fit_paramater_list'] == mask and kw[
                    'minimize_in_trafo_space'] is case['trafo'] and kw[
                        'parameter_tensor_name'] == 'x_label' and
                      order.index(name) > order.index('reco'),
                      'modules use the best fit')
            if m in ('GoodnessOfFit', 'CircularizedAngularUncertainty'):
                env.check(kw['covariance_key'] == (
                    'covariance' if case.get('cov') else None),
                    'covariance of the best fit')


def check_mcmc(env, case, frames, names, res):
    """Samples of an event, sorted by their probability."""
    i = 0
    for e, r in enumerate(res):
        if not case.get('mcmc'):
            break
        s, p = A(r['mcmc']['samples']), A(r['mcmc']['log_prob_values'])
        k = len(p)
        if k == 0:
            continue
        path, kw, tab = frames[i]
        i += 1
        env.check(path == OUT[:-5] + '_mcmc_%08d.hdf5' % e, 'sample file')
        env.check(len(tab['log_prob']) == k, 'number of samples')
        used = [env.and_(*[env.and_(tab['log_prob'][b] == p[a])] + [
            env.and_(tab['samples_' + q][b] == s[a, j])
            for j, q in enumerate(names)]) for a in range(k)
            for b in range(k)]
        for a in range(k):
            env.check(env.or_(*used[a * k:a * k + k]), 'sample is kept')
            env.check(env.or_(*used[a::k]), 'sample of the chain')
        for a in range(1, k):
            env.le(tab['log_prob'][a - 1], tab['log_prob'][a],
                   'samples are sorted')
    env.check(len(frames) == i, 'sample files')


CASES = [dict(n=3, events=2, trafo=True, masks=1),
         dict(n=2, events=2, trafo=False, seed=['x_seed', 'x_other']),
         dict(n=2, events=2, trafo=True, seed='x_other', masks=1),
         dict(n=3, events=3, trafo=True, cov=1, angle=1),
         dict(n=2, events=2, trafo=True, cov=1, gof='samples'),
         dict(n=2, events=2, trafo=True, gof=1, angle=1),
         dict(n=2, events=1, trafo=True, mcmc=2),
         dict(n=2, events=2, trafo=True, mcmc=1),
         dict(n=2, events=2, trafo=True, random=1),
         dict(n=2, events=2, trafo=True, random=1, seed='x_seed')]
HARNESSES = [
    Harness('table', table, CASES, [
        'egenerator.manager.source.SourceManager.reconstruct_testdata'],
        'up to 3 parameters and events (one per batch), 2 seeds, 2 (thorough 3) samples',
        thorough_cases=CASES + [
            dict(n=4, events=4, trafo=True, seed=['x_seed', 'x_other'],
                 cov=1, gof='samples', angle=1, masks=1),
            dict(n=2, events=1, trafo=False, mcmc=3)], max_paths=20000)]
ASSUMPTIONS = ['the reconstruction tray and the loss are stand-ins (their '
               'content: P31 to P37), the table is not written']
