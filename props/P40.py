"""Markov chains: target density, start and samples."""
import types
import numpy as np
import tensorflow as tf
from symx import npx, tfx
from symx.runner import Harness
from props import recofx as rf
from props.P31 import TfResult
from props.P34 import Arr
from egenerator.data import trafo as trafo_mod
from egenerator.manager import source as srcm
from egenerator.manager.reconstruction.modules import mcmc
from egenerator.manager.reconstruction.tray import FunctionCache

A = np.asarray


class Kernel(object):
    def __init__(self, kind, got):
        self.kind, self.got = kind, got

    def __call__(self, *a, **k):
        self.got.setdefault(self.kind, []).append(k)
        if a:
            return a[0]
        return k['target_log_prob_fn']


def chain_fn(case):
    n, c, r = case['n'], case['chains'], case['results']

    def f(mean, std, norm, start, probe, states, acc, prob, aux, w, steps):
        tr = rf.trafo(n, mean, std, norm, [False] * n)
        m = rf.manager(n, 1, tr)
        got = {}
        batch = (aux, aux)

        def loss(x, b):
            assert b is batch, 'event'
            assert tuple(x.shape) == (1, n), 'one hypothesis'
            return tf.reduce_sum(w * x + x * x)

        def sample_chain(num_results, current_state, kernel, trace_fn,
                         num_burnin_steps=0, num_steps_between_results=0,
                         parallel_iterations=10):
            assert (num_results, num_burnin_steps, num_steps_between_results,
                    parallel_iterations) == (r, 5, 2, 1), 'steps'
            got['start'] = current_state
            got['target'] = kernel(probe)
            ns = types.SimpleNamespace
            res = ns(is_accepted=acc, target_log_prob=prob,
                     accepted_results=ns(target_log_prob=prob,
                                         step_size=steps))
            if case['method'] == 'HamiltonianMonteCarlo':
                res = ns(inner_results=res)
            return states, trace_fn(current_state, res)
        mod = types.SimpleNamespace(
            sample_chain=sample_chain,
            random_walk_normal_fn=lambda scale: None,
            **{k: Kernel(k, got) for k in (
                'SimpleStepSizeAdaptation', 'HamiltonianMonteCarlo',
                'NoUTurnSampler', 'RandomWalkMetropolis')})
        old = srcm.tfp
        srcm.tfp = types.SimpleNamespace(mcmc=mod)
        oldf = tf.function
        srcm.tf.function = lambda g: g
        try:
            s, t = m.run_mcmc_on_events(
                start, batch, 'lm', loss, [True] * n,
                minimize_in_trafo_space=case['trafo'], num_chains=c,
                num_results=r, num_burnin_steps=5,
                num_steps_between_results=2, method=case['method'])
        finally:
            srcm.tfp = old
            srcm.tf.function = oldf
        assert case['method'] in got, 'method'
        return (s, t[0], t[1], got['start'], got['target'])
    return tfx.Fn(f, dtype='float64', eager=False)


def chain(env, case):
    """Target density, start and samples of the chains."""
    n, c, r = case['n'], case['chains'], case['results']
    mean = env.array('mean', (n,))
    std = env.array('std', (n,), pos=True, smp=(.5, 2))
    norm = env.real('norm', pos=True, smp=(.01, .1))
    start, probe = env.array('start', (c, n)), env.array('probe', (c, n))
    states = env.array('state', (r, c, n))
    acc, prob = env.array('acc', (r, c)), env.array('prob', (r, c))
    aux, w = env.array('aux', (1, 1)), env.array('w', (n,))
    steps = env.array('steps', (r, 1, n))
    out = [v.arr() if hasattr(v, 'arr') else v for v in chain_fn(case)(
        env, mean, std, norm, start, probe, states, acc, prob, aux, w,
        steps)]
    s, a, p, x0, t = out
    env.eq(x0, start, 'start of the chains')
    env.check(tuple(np.shape(t)) == (c,), 'one value per chain')
    for i in range(c):
        v = 0.
        for x, q in zip(A(probe)[i], A(w)):
            v = v - q * x - x * x
        env.eq(A(t)[i], v, 'target is the negative loss')
    want = A(states).copy()
    if case['trafo']:
        for j in range(n):
            want[..., j] = want[..., j] * (norm + A(std)[j]) + A(mean)[j]
    env.check(np.shape(s) == (r, c, n), 'shape of the samples')
    env.eq(s, env.wrap(want), 'samples in the original space')
    env.eq(a, acc, 'accepted steps')
    env.eq(p, prob, 'probabilities')


class Tf(object):
    TensorSpec = staticmethod(tf.TensorSpec)

    def __init__(self, env):
        self.env = env

    def __getattr__(self, k):
        return getattr(tf, k)

    @staticmethod
    def function(*a, **k):
        return a[0] if a else lambda f: f

    @staticmethod
    def convert_to_tensor(x, dtype=None):
        return x

    def reshape(self, x, shape):
        return self.env.wrap(A(x).reshape(shape))


def module(env, case):
    """The chains start at the best fit; accepted samples are returned."""
    env.patch_np(mcmc, trafo_mod)
    env.patch(mcmc, 'tf', Tf(env))
    env.patch(mcmc, 'print', lambda *a: None)
    n, c, r, trafo = case['n'], case['chains'], case['results'], case['trafo']
    mean = env.array('mean', (n,))
    std = env.array('std', (n,), pos=True, smp=(.5, 2))
    norm = env.real('norm', pos=True, smp=(.01, .1))
    logs = case['log']
    tr = rf.trafo(n, mean, std, norm, logs)
    states, prob = env.array('state', (r, c, n)), env.array('prob', (r, c))
    acc = np.array([[bool(env.choose('acc%d_%d' % (i, j), 0, 1))
                     for j in range(c)] for i in range(r)])
    calls, funs = [], []

    def run(**k):
        calls.append(k)
        trace = (Arr(acc), Arr(prob.copy()))
        if case.get('steps'):
            trace += (Arr(env.array("steps", (r, 1, n))),)
        return Arr(states.copy()), trace

    def loss_function(**s):
        def f():
            return None
        f.__name__ = 'parameter_loss_function'
        funs.append((s, f))
        return f
    man = types.SimpleNamespace(
        data_trafo=tr, run_mcmc_on_events=run,
        get_parameter_loss_function=loss_function,
        data_handler=types.SimpleNamespace(
            get_data_set_signature=lambda: ('sig',)))
    mod = mcmc.MarkovChainMonteCarlo(
        man, 'lm', FunctionCache(), [True] * n, seed_tensor_name='x_seed',
        reco_key='reco', minimize_in_trafo_space=trafo, mcmc_num_chains=c,
        mcmc_num_results=r, mcmc_num_burnin_steps=7,
        mcmc_num_steps_between_results=3, mcmc_method='Method')
    best = env.array('best', (1, n), nonneg=True, smp=(0, 3))
    before = best.copy()
    batch = ('a', 'b')
    out = mod.execute(batch, {'reco': {
        'result': best, 'result_trafo': env.array(
            'other', (1, n))}})
    env.eq(best, before, 'the best fit is kept')
    env.check(len(calls) == 1 and len(funs) == 1, 'one run')
    k, (s, f) = calls[0], funs[0]
    env.check(s['loss_module'] == 'lm' and list(
        s['fit_paramater_list']) == [True] * n and s[
            'minimize_in_trafo_space'] is trafo, 'loss function')
    env.check(k['parameter_loss_function'] is f and k[
        'data_batch'] is batch and k['minimize_in_trafo_space'] is trafo and
        (k['num_chains'], k['num_results'], k['num_burnin_steps'],
         k['num_steps_between_results'], k['method']) == (
             c, r, 7, 3, 'Method'), 'settings of the chains')
    x = A(k['initial_position'])
    env.check(x.shape == (c, n), 'one start per chain')
    for i in range(c):
        for j in range(n):
            v = A(before)[0, j]
            if trafo:
                v = env.fn('log', 1. + v) if logs[j] else v
                v = (v - A(mean)[j]) / (norm + A(std)[j])
            env.eq(x[i, j], v, 'the chains start at the best fit')
    idx = [(i, j) for i in range(r) for j in range(c) if acc[i, j]]
    env.check(np.shape(out['samples']) == (len(idx), n) and np.shape(
        out['log_prob_values']) == (len(idx),), 'accepted samples')
    for q, (i, j) in enumerate(idx):
        env.eq(A(out['samples'])[q], A(states)[i, j], 'samples')
        env.eq(A(out['log_prob_values'])[q], A(prob)[i, j],
               'probability of a sample')


M = 'egenerator.manager.reconstruction.modules.mcmc.MarkovChainMonteCarlo.'
S = 'egenerator.manager.source.SourceManager.'
METHODS = ['HamiltonianMonteCarlo', 'NoUTurnSampler', 'RandomWalkMetropolis']
HARNESSES = [
    Harness('chain', chain, [
        dict(n=3, chains=2, results=2, trafo=True, method=METHODS[0]),
        dict(n=2, chains=3, results=2, trafo=False, method=METHODS[0]),
        dict(n=2, chains=3, results=1, trafo=True, method=METHODS[1]),
        dict(n=2, chains=1, results=3, trafo=True, method=METHODS[2])],
        [S + 'run_mcmc_on_events'], '3 parameters, chains and results',
        thorough_cases=[dict(n=7, chains=3, results=4, trafo=True,
                             method=m) for m in METHODS]),
    Harness('module', module, [
        dict(n=3, chains=2, results=2, trafo=True, log=[False, True, False]),
        dict(n=2, chains=2, results=2, trafo=False, log=[True, False]),
        dict(n=7, chains=1, results=3, trafo=True, log=[False] * 7,
             steps=1)], [M + '__init__', M + 'execute'],
        '7 parameters, up to 4 samples', thorough_cases=[
            dict(n=3, chains=3, results=2, trafo=True, log=[True] * 3)])]
ASSUMPTIONS = ['tensorflow_probability is a stand-in: kernels hand on the '
               'target density, states and traces of the chains are '
               'arbitrary']
