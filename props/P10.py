"""Seed loader: seed parameters of each event in the documented order."""
import sys
import types
import numpy as np
import pandas as pd
from symx.runner import Harness
from props import datafx
from props.datafx import Store
from egenerator.data.modules.misc import seed_loader
from egenerator.data.modules.misc.seed_loader import SeedLoaderMiscModule

PAR = ['x', 'zenith', 'energy', 'time', 'snow']


class Particle(object):
    """Stands in for dataclasses.I3Particle."""

    def __init__(self, v):
        self.pos = types.SimpleNamespace(**{
            k: v[k] for k in v if k in 'xyz'})
        self.dir = types.SimpleNamespace(**{
            k: v[k] for k in v if k in ('zenith', 'azimuth')})
        for k in v:
            if k not in 'xyz' and k not in ('zenith', 'azimuth'):
                setattr(self, k, v[k])


def load(env, case):
    env.patch_np(seed_loader)
    env.patch(seed_loader, 'pd', datafx.pandas(Store))
    seeds, par = case['seeds'], case['par']
    n = case.get('n', 1)
    default = case.get('default')
    table = {}
    if default:
        default = env.real('default')
    if 'dict' in case:
        table = {k: env.real('default_' + k) for k in case['dict']}
    kw = {}
    if default is not None:
        kw['missing_value'] = default
    if table:
        kw['missing_value_dict'] = table
    m = SeedLoaderMiscModule()
    m.configure(config_data=None, seed_names=list(seeds),
                seed_parameter_names=list(par), float_precision='float64',
                **kw)
    # which of the parameters exist in which seed
    v, gone = {}, False
    for s in seeds:
        keys = case.get('have', {}).get(s, par)
        v[s] = {k: [env.real('%s_%s_%d' % (s, k, e), smp=(-9, 9))
                    for e in range(n)] for k in keys}
        gone = gone or any(k not in v[s] and k not in table
                           and default is None for k in par)
    given = {s: dict(v[s], other=[7.] * n, vertex=[3.] * n) for s in seeds
             if s not in case.get('without', [])}
    kind = case['source']
    if kind == 'hdf':
        Store.tables = {s: pd.DataFrame(d) for s, d in given.items()}
        num, res = m.get_data_from_hdf('file', *case.get('args', []))
    else:
        f = {}
        for i, s in enumerate(given):
            d = {k: x[0] for k, x in given[s].items()}
            f[s] = Particle(d) if s in case.get('particles', []) else d
        dc = types.SimpleNamespace(I3Particle=Particle)
        env.patch(seed_loader, 'dataclasses', dc)
        env.patch(sys.modules, 'icecube', types.SimpleNamespace(
            dataclasses=dc))
        num, res = (m.create_data_from_frame if kind == 'create'
                    else m.get_data_from_frame)(f)
    ts = m.data['misc_tensors']
    env.check(ts.names == sorted(seeds) and all(
        tuple(t.shape) == (None, len(par)) and t.exists
        and t.type == 'misc' and t.dtype == 'float64' for t in ts.list),
        'seed tensors')
    if gone or len(given) < len(seeds):
        env.check(num is None and res is None, 'incomplete seeds are skipped')
        return
    env.check(num == n and len(res) == len(seeds), 'number of events')
    for t, x in zip(ts.list, res):
        x = np.asarray(x)
        env.check(x.shape == (n, len(par)), 'shape')
        if not env.sym:
            env.check(x.dtype == np.float64, 'dtype')
        for e in range(n):
            for j, k in enumerate(par):
                if k in v[t.name]:
                    env.eq(x[e, j], v[t.name][k][e], 'value of a seed')
                elif k in table:
                    env.eq(x[e, j], table[k], 'own default value')
                else:
                    env.eq(x[e, j], default, 'default value')


def mismatch(env, case):
    """Seeds with different numbers of events are not mixed."""
    env.patch_np(seed_loader)
    env.patch(seed_loader, 'pd', datafx.pandas(Store))
    m = SeedLoaderMiscModule()
    m.configure(config_data=None, seed_names=['a', 'c', 'b'],
                seed_parameter_names=['x', 'e'], float_precision='float64')
    n = [env.choose('n_' + k, 1, 2) for k in 'abc']
    Store.tables = {s: pd.DataFrame({k: [env.real(
        '%s_%s_%d' % (s, k, e)) for e in range(i)] for k in 'xe'})
        for s, i in zip('abc', n)}
    if len(set(n)) == 1:
        num, res = m.get_data_from_hdf('file')
        env.check(num == n[0] and all(len(r) == num for r in res),
                  'number of events')
    else:
        env.raises(ValueError, lambda: m.get_data_from_hdf('file'),
                   'different numbers of events')


F = ['egenerator.data.modules.misc.seed_loader.SeedLoaderMiscModule.' + k
     for k in ('get_data_from_hdf', 'get_data_from_frame', '_configure')]
B = ('up to 3 seeds with up to 5 parameters of up to 3 events, every value '
     'and default')
TWO = ['reco_b', 'reco_a']
CASES = [
    dict(source='hdf', seeds=['reco'], par=PAR, n=2),
    dict(source='hdf', seeds=TWO, par=PAR[:3], n=3),
    dict(source='hdf', seeds=TWO, par=['zenith', 'x'], n=2, args=['a', 1]),
    dict(source='hdf', seeds=TWO, par=PAR, n=2, default=True,
         have={'reco_b': ['zenith', 'time'], 'reco_a': ['x']}),
    dict(source='hdf', seeds=TWO, par=PAR[:3], n=2, dict=['x', 'energy'],
         have={'reco_b': ['zenith'], 'reco_a': ['zenith', 'x']}),
    dict(source='hdf', seeds=TWO, par=PAR[:4], n=2, dict=['x', 'energy'],
         default=True, have={'reco_b': ['zenith'], 'reco_a': ['energy']}),
    dict(source='hdf', seeds=TWO, par=PAR[:3], n=2, dict=['x'],
         have={'reco_b': ['zenith'], 'reco_a': PAR[:3]}),
    dict(source='hdf', seeds=TWO, par=PAR[:3], n=2, without=['reco_a']),
    dict(source='frame', seeds=TWO, par=PAR),
    dict(source='frame', seeds=TWO, par=PAR, particles=['reco_a']),
    dict(source='frame', seeds=TWO, par=PAR + ['y', 'z', 'azimuth'],
         particles=TWO),
    dict(source='create', seeds=TWO, par=PAR, default=True,
         particles=['reco_b'],
         have={'reco_b': ['zenith', 'x'], 'reco_a': ['x', 'zenith']}),
    dict(source='frame', seeds=TWO, par=['a', 'energy', 'b', 'time'],
         default=True, dict=['b', 'energy'], particles=['reco_b'],
         have={'reco_b': ['energy'], 'reco_a': ['time']}),
    dict(source='frame', seeds=TWO, par=['x', 'snow'], dict=['x'],
         have={'reco_b': ['x', 'snow'], 'reco_a': ['x']}),
    dict(source='frame', seeds=TWO, par=['x', 'snow'], particles=['reco_a'],
         have={'reco_b': ['x', 'snow'], 'reco_a': ['x']}),
    dict(source='frame', seeds=TWO, par=['x'], without=['reco_b']),
]
MORE = [dict(source=s, seeds=['c', 'a', 'b'], par=PAR, n=3, default=True,
             dict=['snow', 'time'], have={
                 'c': PAR[:j], 'a': PAR[j:], 'b': PAR[::2]})
        for s in ('hdf', 'frame') for j in range(6)]
for _c in MORE:
    if _c['source'] == 'frame':
        _c['n'] = 1
HARNESSES = [Harness('load', load, CASES, F, B, thorough_cases=CASES + MORE),
             Harness('mismatch', mismatch, [{}], F[:1], '1 or 2 events')]
ASSUMPTIONS = ['HDF files are given as tables, frames as dictionaries '
               '(pandas.HDFStore and icecube.dataclasses are stand-ins)']
