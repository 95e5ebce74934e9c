"""Snowstorm priors."""
import numpy as np
import tensorflow as tf
from symx.runner import Harness
from symx import tfx
from props import fx
from egenerator.loss.snowstorm import SnowstormPriorLossModule
from egenerator.model.source.base import Source

UNIFORM = {'Absorption': [0.9, 1.1], 'AnisotropyScale': [0.0, 2.0],
           'DOMEfficiency': [0.9, 1.1], 'Scattering': [0.9, 1.1],
           'HoleIceForward_Unified_00': [-2.0, 1.0],
           'HoleIceForward_Unified_01': [-0.2, 0.2]}
NB = 2


class Named(Source):
    """A source that knows the names of its parameters."""

    def _build_architecture(self, config, name=None):
        return list(config['names'])

    def get_tensors(self, *args, **kwargs):
        raise NotImplementedError


def names_of(case):
    uni = case.get('uniform', UNIFORM)
    n = 24 if case.get('sigmas') is None else len(case['sigmas'])
    f = ['IceWavePlusModes_{:02d}'.format(i) for i in range(n)]
    uni = list(uni)[::-1]
    k = case.get('at', 1)
    return ['energy'] + uni[:k] + f + uni[k:] + ['other']


def build(case):
    m = SnowstormPriorLossModule()
    config = {}
    if case.get('sigmas') is not None:
        config['sigmas'] = list(case['sigmas'])
    if 'uniform' in case:
        config['uniform_parameters'] = case['uniform']
    m.configure(config=config)
    names = names_of(case)
    s = Named()
    trafo = fx.transformer([fx.tensor('x_parameters', [None, len(names)])],
                           {})
    conf, data, sub = s._configure_derived_class(
        config={'names': names}, data_trafo=trafo, name='named')
    s._configuration, s._data, s._sub_components = conf, data, sub
    s._is_configured = True
    return m, s


FNS = {}


def call(env, case, x, scalar=True, sort=False):
    key = repr(case) + repr((scalar, sort))
    if key not in FNS:
        m, s = build(case)

        def fn(x, charge):
            kw = {}
            name = 'x_parameters'
            if case.get('tensor'):
                name = kw['parameter_tensor_name'] = case['tensor']
            r = m.get_loss({name: x, 'x_dom_charge': charge}, {}, None, s,
                           reduce_to_scalar=scalar, sort_loss_terms=sort,
                           normalize_by_total_charge=False, **kw)
            return r if isinstance(r, (list, tuple)) else [r]
        FNS[key] = tfx.Fn(fn, dtype='float64', eager=False)
    return FNS[key](env, x, np.ones((NB, 2, 2, 1)))


def uniform_loss(env, v, low, high):
    e = lambda t: env.fn('exp', (t + 1) * 10)               # noqa: E731
    top = float(np.exp(10))
    return env.ite(v > high, e((v - high) / (high - low)) - top, 0) \
        + env.ite(v < low, e((low - v) / (high - low)) - top, 0)


def sigmas_of(case):
    if case.get('sigmas') is not None:
        return case['sigmas']
    return build(case)[0].sigmas


def documented(env, case, x):
    """Loss of each event."""
    names, out = names_of(case), []
    sig = sigmas_of(case)
    for b in range(NB):
        v = dict(zip(names, np.asarray(x)[b]))
        terms = [uniform_loss(env, v[k], lo, hi) for k, (lo, hi)
                 in case.get('uniform', UNIFORM).items()]
        for i, s in enumerate(sig):
            z = v['IceWavePlusModes_{:02d}'.format(i)]
            terms.append((z / s) * (z / s) / 2 + env.fn('log', s)
                         + env.fn('log', 2 * env.pi()) / 2)
        out.append(sum(terms))
    return out


def prior(env, case):
    names = names_of(case)
    x = env.array('x', (NB, len(names)), lo=-4, hi=4)
    want = documented(env, case, x)
    r = call(env, case, x, False, True)
    env.check(len(r) == 3, 'three kinds of terms')
    env.eq(r[0].arr() if env.sym else r[0], 0, 'scalar term')
    env.check(tuple(r[1].shape) == (NB,), 'one prior per event')
    if case.get('relative'):
        # logarithms of arbitrary decimal numbers: constants cancel
        env.eq(r[1][0] - r[1][1], want[0] - want[1], 'priors of two events')
        return
    for b in range(NB):
        env.eq(r[1][b], want[b], 'prior of an event')
    env.check(tuple(r[2].shape) == (NB, 2, 2), 'one term per DOM')
    for i in np.ndindex(NB, 2, 2):
        env.eq(r[2][i], 0, 'DOMs carry no prior')
    s = call(env, case, x)
    env.check(len(s) == 1 and s[0].shape == (), 'a scalar')
    env.eq(s[0].arr() if env.sym else s[0], sum(want), 'sum of all priors')
    t = call(env, case, x, False)
    tot = sum([sum([q[i] for i in np.ndindex(*q.shape)]) for q in t])
    env.eq(tot, sum(want), 'sum of all terms')


def shape(env, case):
    """Flat inside of the bounds, rising outside, same for all events."""
    m = SnowstormPriorLossModule()
    m.configure(config={})
    low, high = case['bounds']
    if 'p' not in FNS:
        FNS['p'] = {}
    key = repr(case)
    if key not in FNS['p']:
        FNS['p'][key] = tfx.Fn(
            lambda v: m.uniform_log_prior_loss(v, low, high),
            dtype='float64', eager=False)
    v = env.array('v', (2,), lo=low - 2 * (high - low),
                  hi=high + 2 * (high - low))
    r = FNS['p'][key](env, v)
    inside = env.and_(env.le_(low, v[0]), env.le_(v[0], high))
    env.check(env.implies(inside, r[0] == 0), 'no prior inside the bounds')
    env.check(env.implies(env.and_(v[0] > high, v[1] > v[0]), r[1] > r[0]),
              'rising above the bounds')
    env.check(env.implies(env.and_(v[0] < low, v[1] < v[0]), r[1] > r[0]),
              'rising below the bounds')


SMALL = dict(sigmas=[0.5, 2.0], uniform={
    'Absorption': [0.9, 1.1], 'Scattering': [-1.0, 2.0]})
CASES = [SMALL, dict(SMALL, tensor='x_other'),
         dict(sigmas=[0.25], uniform={}, at=0),
         dict(sigmas=[], uniform={'DOMEfficiency': [0.5, 1.5]}),
         dict(sigmas=[0.5, 2.0, 0.125], at=6),
         dict(at=3, relative=1), dict(sigmas=[0.01, 4.0], relative=1),
         dict(sigmas=[1.5, 4.0])]
L = 'egenerator.loss.snowstorm.SnowstormPriorLossModule.'
HARNESSES = [
    Harness('prior', prior, CASES, [L + 'get_loss',
            L + 'uniform_log_prior_loss'],
            '2 events, up to 24 Fourier modes and 6 uniform parameters'),
    Harness('shape', shape, [dict(bounds=b) for b in (
        [0.9, 1.1], [0.0, 2.0], [-2.0, 1.0])],
        [L + 'uniform_log_prior_loss'],
        'values up to twice the width outside of the bounds')]
