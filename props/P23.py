"""Multi-source models: superposition and routing of parameters."""
import math
import numpy as np
import tensorflow as tf
from symx.runner import Harness
from symx import tfx
from props import fx
from props import srcfx as sx
from egenerator.model.source.base import Source
from egenerator.model.multi_source.independent import IndependentMultiSource
from egenerator.model.multi_source.muon.default import \
    DefaultMultiCascadeModel
from egenerator.model.multi_source.track.stochastic_track import \
    StochasticTrackModel

NB = 2
PULSES = [[0, 0, 0], [1, 3, 2], [0, 85, 59], [1, 3, 2]]
CASC = ['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time']
C = 0.299792458
V = {}


class Probe(Source):
    """Results are arbitrary exponential or linear functions of the parameters of the source."""

    def _build_architecture(self, config, name=None):
        self._key = config['key']
        self.calls = []
        return list(config['names'])

    def get_tensors(self, data_batch_dict, is_training,
                    parameter_tensor_name='x_parameters'):
        p = data_batch_dict[parameter_tensor_name]
        self.calls.append((is_training, sorted(data_batch_dict)))
        k, w = self._key, V['w'][self._key]
        lin = tf.reduce_sum(p * w, axis=1)                  # one per event
        lin4 = tf.reshape(tf.exp(lin / 8), [-1, 1, 1, 1])
        q = V['q'][k] * data_batch_dict['x_dom_charge']
        t = data_batch_dict['x_pulses'][:, 1]
        ids = data_batch_dict['x_pulses_ids'][:, 0]
        r = {'dom_charges': q * lin4,
             'dom_charges_variance': q * lin4 * lin4 + q,
             'pulse_pdf': t * tf.gather(lin, ids) + V['s'][k]}
        if V['excl']:
            r['dom_cdf_exclusion_sum'] = lin4 + q
        return r


def names_of(base, case):
    snow = [f.format(i) for f, n in case.get('snow', ()) for i in range(n)]
    if base == 'track':
        return CASC + ['length', 'stochasticity'] + snow
    if base == 'noise':
        return []
    if base == 'other':
        return ['a', 'b']
    return CASC + snow


BASES = {'independent': IndependentMultiSource,
         'muon': DefaultMultiCascadeModel, 'track': StochasticTrackModel}
BASE_NAMES = {'muon': ['cascade'], 'track': ['cascade', 'track']}


def build(case):
    kind = case['kind']
    bases = sorted(set(case['sources'].values())) if kind == 'independent' \
        else BASE_NAMES[kind]
    ts = [fx.tensor('x_parameters', [None, 2], trafo=True)]
    if case.get('excl'):
        ts.append(fx.tensor('x_time_exclusions', [None, 2]))
    trafo = fx.transformer(ts, {'x_parameters_mean': np.zeros(2),
                                'x_parameters_std': np.ones(2)})
    subs = {}
    for b in case.get('order', bases):
        p = Probe()
        conf, data, sub = p._configure_derived_class(
            config={'names': names_of(b, case), 'key': b},
            data_trafo=trafo, name=b)
        p._configuration, p._data, p._sub_components = conf, data, sub
        p._is_configured = True
        subs[b] = p
    config = {}
    if kind == 'independent':
        config['sources'] = dict(case['sources'])
    else:
        config['num_cascades'] = case['n']
    if case.get('snow'):
        config['snowstorm_parameter_names'] = case['snow']
    m = BASES[kind]()
    probes = dict(subs)
    conf, data, sub = m._configure_derived_class(
        base_sources=subs, config=config, data_trafo=trafo, name='multi')
    m._configuration, m._data, m._sub_components = conf, data, sub
    m._is_configured = True
    return m, probes


FNS = {}


def traced(case):
    key = repr(sorted(case.items(), key=str))
    if key in FNS:
        return FNS[key]
    m, probes = build(case)
    V['excl'] = bool(case.get('excl'))
    ids = tf.constant(np.asarray(case.get('pulses', PULSES), dtype=np.int64))
    tensor = case.get('tensor', 'x_parameters')
    names = sorted(m._untracked_data['sources'])

    def fn(par, pulses, charge, q, s, *w):
        V['q'] = {b: q[i] for i, b in enumerate(sorted(probes))}
        V['s'] = {b: s[i] for i, b in enumerate(sorted(probes))}
        V['w'] = {b: w[i] for i, b in enumerate(sorted(probes))}
        V['excl'] = bool(case.get('excl'))
        batch = {tensor: par, 'x_pulses': pulses, 'x_pulses_ids': ids,
                 'x_dom_charge': charge}
        r = dict(m.get_tensors(batch, is_training=False,
                               parameter_tensor_name=tensor))
        fn.keys = sorted(r)
        src = m.get_source_parameters(m.add_parameter_indexing(
            tf.identity(par)))
        fn.names = sorted(src)
        return [r[k] for k in fn.keys] + [src[k] for k in names]
    FNS[key] = (tfx.Fn(fn, dtype='float64', eager=False), fn, m, probes,
                names)
    return FNS[key]


def parameters(env, case, m):
    return env.array('par', (NB, m.num_parameters),
                     smp=case.get('smp', (0.5, 2)))


def superposition(env, case):
    """Results are the sum over the sources, each with its own parameters."""
    f, raw, m, probes, names = traced(case)
    par = parameters(env, case, m)
    ids = case.get('pulses', PULSES)
    pulses = env.array('pulse', (len(ids), 2), smp=(0.1, 2))
    charge = env.lazy('charge', (NB,) + sx.DOM + (1,), lo=0.1, hi=1,
                 pos=True)
    bs = sorted(probes)
    q = env.lazy('q', (len(bs), 1) + sx.DOM + (1,), lo=0.1, hi=1,
                 pos=True)
    s = env.array('s', (len(bs),), smp=(0.1, 1))
    w = [env.array('w%d' % i, (len(names_of(b, case)),), smp=(0.1, 1))
         for i, b in enumerate(bs)]
    r = f(env, par, pulses, charge, q, s, *w)
    out = dict(zip(raw.keys, r))
    src = dict(zip(names, r[len(raw.keys):]))
    env.check(sorted(raw.names) == names, 'parameters of every source')
    want = ['dom_charges', 'dom_charges_variance', 'pulse_pdf'] + \
        ['dom_cdf_exclusion_sum'] * bool(case.get('excl'))
    env.check(all(k in out for k in want), 'result tensors')
    mapping = m._untracked_data['sources']

    def one(name, b, dom):
        base = bs.index(mapping[name])
        n = len(names_of(bs[base], case))
        lin = sum([src[name][b, j] * np.asarray(w[base])[j]
                   for j in range(n)]) if n else 0
        qq = q[(base, 0) + dom + (0,)] * charge[(b,) + dom + (0,)]
        e = env.fn('exp', lin / 8)
        return lin, qq * e, qq * e * e + qq, e + qq
    for at in [(0, 0, 0), (1, 3, 2), (1, 40, 7), (0, 85, 59)]:
        parts = [one(k, at[0], at[1:]) for k in names]
        tot = sum(p[1] for p in parts)
        env.eq(out['dom_charges'][at + (0,)], tot,
               'charges of the sources add up')
        env.eq(out['dom_charges_variance'][at + (0,)],
               sum(p[2] for p in parts), 'variances of the sources add up')
        if case.get('excl'):
            env.eq(out['dom_cdf_exclusion_sum'][at + (0,)] *
                   out['dom_charges'][at + (0,)],
                   sum(p[1] * p[3] for p in parts),
                   'excluded fraction is the charge weighted mean')
    for k, at in enumerate(ids):
        parts = [one(n, at[0], tuple(at[1:])) for n in names]
        dens = [np.asarray(pulses)[k, 1] * p[0] + np.asarray(s)[
            bs.index(mapping[n])] for n, p in zip(names, parts)]
        tot = out['dom_charges'][tuple(at) + (0,)]
        env.eq(out['pulse_pdf'][k] * (tot + 1e-6),
               sum(p[1] * d for p, d in zip(parts, dens)),
               'pulse density is the charge weighted mean')
    for b in bs:
        env.check(all(c[0] is False for c in probes[b].calls),
                  'training flag is handed on')


def documented(env, case, m, par, got):
    """Source parameters as documented; got: positions of the sources."""
    names = m.parameter_names
    if case['kind'] == 'independent':
        return {s: [par[names.index(s + '_' + k)] for k in names_of(b, case)]
                for s, b in case['sources'].items()}
    p = dict(zip(names, par))
    sin, cos = (lambda v: env.fn('sin', v)), (lambda v: env.fn('cos', v))
    u = [-sin(p['zenith']) * cos(p['azimuth']),
         -sin(p['zenith']) * sin(p['azimuth']), -cos(p['zenith'])]
    snow = [p[f.format(i)] for f, n in case.get('snow', ())
            for i in range(n)]

    def point(r, t, d):
        return [r[k] + d * u[k] for k in range(3)] + [t + d / C]
    out = {}
    if case['kind'] == 'track':
        r = [p['track_anchor_' + k] for k in 'xyz']
        t = p['track_anchor_time']

        def source(d, energy, more=()):
            x, y, z, tt = point(r, t, d)
            return [x, y, z, p['zenith'], p['azimuth'], energy, tt] + list(
                more) + snow
        a, b = p['track_distance_start'], p['track_distance_end']
        out['track'] = source(a, p['track_energy'],
                              [b - a, p['track_stochasticity']])
        for i in range(case['n']):
            k = 'cascade_{:04d}'.format(i)
            out[k] = source(p[k + '_distance'] if i else 0,
                            p[k + '_energy'])
        return out
    r = [p[k] for k in 'xyz']
    s = -sum(x * y for x, y in zip(u, r))
    c, ct = point(r, p['time'], s)[:3], p['time'] + s / C
    for i in range(case['n']):
        k = 'cascade_{:04d}'.format(i)
        d = -500 + (1000 * i / (case['n'] - 1) if i else 0)
        x, y, z, t = point(c, ct, d)
        e = env.fn('exp', p[k + '_log_energy'])
        for v in got[k]:
            e = env.ite(abs(v) > 700, 0, e)
        out[k] = [x, y, z, p['zenith'], p['azimuth'], e, t]
    return out


def routing(env, case):
    """Every source gets the documented parameters."""
    key = 'route' + repr(sorted(case.items(), key=str))
    if key not in FNS:
        m, probes = build(case)
        names = sorted(m._untracked_data['sources'])

        def fn(par):
            src = m.get_source_parameters(m.add_parameter_indexing(par))
            if sorted(src) != names:
                raise ValueError('parameters of other sources')
            return [src[k] for k in names]
        FNS[key] = tfx.Fn(fn, dtype='float64', eager=False), m, names
    f, m, names = FNS[key]
    par = parameters(env, case, m)
    src = dict(zip(names, f(env, par)))
    mapping = m._untracked_data['sources']
    for b in range(NB):
        want = documented(env, case, m, [np.asarray(par)[b, j] for j in
                                         range(m.num_parameters)],
                          {k: [src[k][b, j] for j in range(3)]
                           for k in names if src[k].shape[1] > 2})
        env.check(sorted(want) == names, 'sources of the model')
        for k in names:
            env.check(tuple(src[k].shape) == (NB, len(names_of(
                mapping[k], case))), 'number of parameters of each source')
            keys = names_of(mapping[k], case)
            for j in range(min(len(keys), src[k].shape[1])):
                env.eq(src[k][b, j], want[k][j], 'parameter ' + keys[j])


def naming(env, case):
    """Names and indices of the parameters are a bijection."""
    m, probes = build(case)
    kind = case['kind']
    snow = [f.format(i) for f, n in case.get('snow', ()) for i in range(n)]
    if kind == 'independent':
        want = [s + '_' + k for s in sorted(case['sources'])
                for k in names_of(case['sources'][s], case)]
    elif kind == 'muon':
        want = ['x', 'y', 'z', 'zenith', 'azimuth', 'time'] + [
            'cascade_{:04d}_log_energy'.format(i) for i in range(case['n'])]
    else:
        want = ['zenith', 'azimuth'] + ['track_anchor_' + k for k in (
            'x', 'y', 'z', 'time')] + [
            'track_' + k for k in ('energy', 'distance_start',
                                   'distance_end', 'stochasticity')]
        for i in range(case['n']):
            want += ['cascade_{:04d}_energy'.format(i)] + [
                'cascade_{:04d}_distance'.format(i)] * (i > 0)
        want += snow
    env.check(list(m.parameter_names) == want, 'parameter names')
    env.check(m.num_parameters == len(want), 'number of parameters')
    k = env.choose('k', 0, len(want) - 1)
    env.check(m.get_index(want[k]) == k, 'index of a name')
    env.check(m.get_name(k) == want[k], 'name of an index')
    env.check(set(m._untracked_data['sources'].values()) <= set(probes),
              'bases of the sources')
    x = m.add_parameter_indexing(tf.constant(np.arange(
        2 * len(want), dtype=float).reshape(2, -1)))
    env.check(np.array_equal(x.params[want[k]].numpy(),
                             [k, len(want) + k]), 'access by name')
    env.raises(ValueError, lambda: m.add_parameter_indexing(
        tf.ones((2, len(want) + 1))), 'wrong number of parameters')


M = 'egenerator.model.multi_source.'
SNOW = [['Sys{:02d}', 2], ['DOMEfficiency', 1]]
TWO = [['Amp{:02d}', 2], ['Phase{:02d}', 2], ['Abs', 1]]
IND = dict(kind='independent', sources={'b': 'cascade', 'a': 'other',
                                        'c': 'cascade'})
CASES = [
    IND, dict(IND, excl=True),
    dict(kind='independent', sources={'n': 'noise', 'k': 'other'},
         excl=True),
    dict(kind='independent', sources={'k2': 'other', 'k1': 'track',
                                      'k0': 'cascade'}, snow=SNOW),
    dict(IND, excl=True, pulses=[[0, 3, 2]]),
    dict(kind='muon', n=1), dict(kind='muon', n=3),
    dict(kind='track', n=0, snow=SNOW), dict(kind='track', n=1, snow=SNOW),
    dict(kind='track', n=3, snow=SNOW), dict(kind='track', n=2),
    dict(kind='track', n=2, snow=SNOW, excl=True, tensor='x_seed'),
]
F = [M + k for k in (
    'base.MultiSource.get_tensors',
    'independent.IndependentMultiSource.get_source_parameters',
    'muon.default.DefaultMultiCascadeModel.get_source_parameters',
    'track.stochastic_track.StochasticTrackModel.get_source_parameters')]
B = ('2 events, 4 pulses, 4 DOMs, 1 to 4 sources of 1 to 3 kinds with '
     'arbitrary polynomial results, arbitrary parameters')
HARNESSES = [Harness('superposition', superposition, CASES, F, B)]
ASSUMPTIONS = ['the sources are arbitrary functions of their parameters (charges '
               'are exponentials and positive, densities linear)']
