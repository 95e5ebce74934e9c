"""Pulse data: charges, pulses, time windows and exclusions of each event."""
import sys
import types
import numpy as np
import pandas as pd
from symx.runner import Harness
from props import fx, datafx
from egenerator.data.modules.data import pulse_data
from egenerator.data.modules.data.pulse_data import PulseDataModule
from egenerator.utils import detector

COLS = ['Run', 'Event', 'SubEvent', 'SubEventStream', 'exists']
PULSE = COLS + ['string', 'om', 'pmt', 'vector_index', 'time', 'width',
                'charge']
EXCL = COLS + ['vector_index', 'string', 'om', 'pmt']
BAD = np.reshape(detector.bad_doms_mask, [86, 60]).astype(bool)
# events that share all identifiers but one
IDS = [(7, 3, 0, 0), (7, 3, 0, 1), (8, 3, 0, 0), (7, 4, 0, 0), (7, 3, 1, 0)]


def make(case):
    m = PulseDataModule()
    m.configure(
        config_data=None, pulse_key='Pulses',
        dom_exclusions_key='Bad' if case.get('doms') is not None else None,
        time_exclusions_key='Times' if case.get('times') is not None
        else None, float_precision='float64',
        add_charge_quantiles=case.get('quantiles', False),
        discard_pulses_from_excluded_doms=case.get('discard', False))
    return m


class Store(datafx.Store):
    """Stands in for pandas.HDFStore."""
    files = {}

    def __init__(self, name, mode='a', **kwargs):
        super(Store, self).__init__(name, mode)
        self.tables = Store.files[name]

    def __getitem__(self, k):
        if k not in self.tables:
            raise KeyError(k)
        return super(Store, self).__getitem__(k)


class Frame(dict):
    pass


class OMKey(object):
    def __init__(self, string, om):
        self.string, self.om = string, om


Reco = type('I3RecoPulseSeriesMap', (), {})


class Masked(object):
    """A mask or union that must be applied to the frame."""

    def __init__(self, m):
        self.m = m

    def apply(self, frame):
        return self.m


def table(cols, rows):
    # hdf tables keep integers as integers; charges and times are objects
    # while they are symbolic
    return pd.DataFrame({c: [r[i] for r in rows] for i, c in
                         enumerate(cols)}, columns=cols)


def pulses_of(env, case):
    """[(event, string, om, time, charge)]"""
    out = []
    for i, (e, s, o) in enumerate(case['pulses']):
        if isinstance(o, list):
            o = o[env.choose('om%d' % i, 0, len(o) - 1)]
        if isinstance(s, list):
            s = s[env.choose('string%d' % i, 0, len(s) - 1)]
        out.append((e, s, o, env.real('time%d' % i, smp=(-50, 50)),
                    env.real('charge%d' % i, pos=True, smp=(0.1, 3))))
    return out


def hdf(env, case, m, pulses, times, doms):
    n = case.get('n', 1)
    t = {}
    order = case.get('order', list(range(n)))
    labels = [IDS[e] + (1,) for e in order]
    if not case.get('no_labels'):
        t['LabelsDeepLearning'] = table(COLS, labels)
    if not case.get('no_pulses'):
        t['Pulses'] = table(PULSE, [IDS[e] + (1, s, o, 0, i, ti, 0., q) for i, (
            e, s, o, ti, q) in enumerate(pulses)])
    if times is not None:
        t['Times'] = table(PULSE, [IDS[e] + (1, s, o, 0, i, a, b, 0.) for i, (
            e, s, o, a, b) in enumerate(times)])
    if doms is not None:
        t['Bad'] = table(EXCL, [IDS[e] + (1, i, s, o, 0) for i, (
            e, s, o) in enumerate(doms)])
    Store.files['file'] = t
    env.patch(pulse_data, 'pd', datafx.pandas(Store))
    return m.get_data_from_hdf('file')


def frame(env, case, m, pulses, times, doms):
    f = Frame()
    P = lambda **k: types.SimpleNamespace(**k)              # noqa: E731
    series = {}
    keys = {}
    for e, s, o, ti, q in pulses:
        k = keys.setdefault((s, o), OMKey(s, o))
        series.setdefault(k, []).append(P(time=ti, charge=q, width=0.))
    masked = case.get('masked')
    dc = types.SimpleNamespace(
        I3RecoPulseSeriesMapMask=Masked if masked == 'mask' else type(
            'A', (), {}),
        I3RecoPulseSeriesMapUnion=Masked if masked == 'union' else type(
            'B', (), {}))
    f['Pulses'] = Masked(series) if masked else series
    if times is not None:
        tws, keys = {}, {}
        for e, s, o, a, b in times:
            k = keys.setdefault((s, o), OMKey(s, o))
            tws.setdefault(k, []).append(P(start=a, stop=b))
        f['Times'] = tws
    if doms is not None:
        f['Bad'] = [OMKey(s, o) for e, s, o in doms]
    env.patch(sys.modules, 'icecube', types.SimpleNamespace(dataclasses=dc))
    get = m.create_data_from_frame if case.get('create') else \
        m.get_data_from_frame
    return get(f)


def grouped(pulses):
    """Frames group the pulses by DOM."""
    out, keys = [], []
    for p in pulses:
        if p[1:3] not in keys:
            keys.append(p[1:3])
    for k in keys:
        out += [p for p in pulses if p[1:3] == k]
    return out


def read(env, case):
    env.patch_np(pulse_data)
    if env.sym:
        env.patch(pulse_data, 'float', lambda v: v if hasattr(
            v, 'op') else float(v))
    env.patch(detector, 'bad_doms_mask', BAD.reshape(86, 60) * 1.)
    m = make(case)
    pulses = pulses_of(env, case)
    times = doms = None
    if case.get('times') not in (None, 'missing'):
        times = [(e, s, o, env.real('start%d' % i), env.real('stop%d' % i))
                 for i, (e, s, o) in enumerate(case['times'])]
    if case.get('doms') not in (None, 'missing'):
        doms = [tuple(d) for d in case['doms']]
    src = case['source']
    num, batch = (hdf if src == 'hdf' else frame)(
        env, case, m, pulses, times, doms)
    if case.get('no_pulses') or case.get('no_labels'):
        env.check(num is None and batch is None, 'file without data')
        return
    n = case.get('n', 1) if src == 'hdf' else 1
    env.check(num == n, 'number of events')
    ts = m.data['data_tensors']
    env.check([t.name for t in ts.list] == sorted([
        'x_dom_charge', 'x_dom_exclusions', 'x_pulses', 'x_pulses_ids',
        'x_time_window', 'x_time_exclusions', 'x_time_exclusions_ids']),
        'tensors')
    d = dict(zip(ts.names, batch))
    env.check(len(batch) == ts.len, 'one array per tensor')
    for t in ts.list:
        env.check((d[t.name] is not None) == t.exists, 'existing tensors')
        if t.exists:
            env.check(d[t.name].ndim == len(t.shape) and all(
                b is None or a == b for a, b in zip(
                    d[t.name].shape, t.shape)), 'shape of ' + t.name)
    at = case.get('order', list(range(n))).index if src == 'hdf' else (
        lambda e: e)
    if src == 'frame':
        pulses = grouped(pulses)
        times = None if times is None else grouped(times)
    pulses = [(at(e),) + tuple(r) for e, *r in pulses if r[1] <= 60]
    # charges
    total = {}
    for e, s, o, ti, q in pulses:
        total[(e, s - 1, o - 1, 0)] = total.get((e, s - 1, o - 1, 0), 0) + q
    x = np.asarray(d['x_dom_charge'])
    env.check(nonzero(x) == set(total), 'DOMs with charge')
    for i, q in total.items():
        env.eq(x[i], q, 'charge of a DOM')
    # exclusions
    good = np.tile(BAD[None], (n, 1, 1))
    if case.get('doms') is not None:
        for e, s, o in doms or []:
            if o <= 60:
                good[at(e), s - 1, o - 1] = False
        env.check(np.asarray(d['x_dom_exclusions']).shape == (n, 86, 60, 1)
                  and np.array_equal(flags(d['x_dom_exclusions']),
                                     good[..., None]), 'excluded DOMs')
    # pulses
    rows, cum = [], {}
    for e, s, o, ti, q in pulses:
        k = (e, s - 1, o - 1, 0)
        cum[k] = cum.get(k, 0) + q
        r = [q, ti]
        if case.get('quantiles'):
            r.append(cum[k] / total[k])
        if not (case.get('discard') and doms is not None
                and not good[k[:3]]):
            rows.append((k[:3], r))
    p, ids = np.asarray(d['x_pulses']), np.asarray(d['x_pulses_ids'])
    env.check(len(p) == len(rows) and len(ids) == len(rows),
              'number of pulses')
    for (k, r), a, i in zip(rows, p, ids):
        env.check(tuple(number(v) for v in i) == k, 'DOM of a pulse')
        for v, w, name in zip(a, r, ('charge', 'time', 'quantile')):
            env.eq(v, w, name + ' of a pulse')
    # time window
    w = np.asarray(d['x_time_window'])
    for e in range(n):
        t = [q[3] for q in pulses if q[0] == e]
        if t:
            for v in t:
                env.check(env.and_(env.le_(w[e, 0], v), env.le_(
                    v, w[e, 1])), 'pulses within the time window')
            env.check(env.or_(*[w[e, 0] == v for v in t]), 'first pulse')
            env.check(env.or_(*[w[e, 1] == v for v in t]), 'last pulse')
    # time exclusions
    if case.get('times') is not None:
        want = [(at(e), s - 1, o - 1, a, b) for e, s, o, a, b in times or []
                if o <= 60]
        x, i = (np.asarray(d['x_time_exclusions' + k]) for k in ('', '_ids'))
        env.check(len(x) == len(want) and len(i) == len(want),
                  'number of time exclusions')
        for v, j, y in zip(x, i, want):
            env.check(tuple(number(k) for k in j) == y[:3],
                      'DOM of a time exclusion')
            env.eq(v[0], y[3], 'start of a time exclusion')
            env.eq(v[1], y[4], 'end of a time exclusion')


def number(v):
    return int(v.val) if hasattr(v, 'val') else int(v)


def flags(a):
    a = np.asarray(a)
    if a.dtype != object:
        return a
    return np.array([bool(v) for v in a.reshape(-1)]).reshape(a.shape)


def nonzero(a):
    if a.dtype != object:
        return set(tuple(int(v) for v in i) for i in np.argwhere(a != 0))
    out = set()
    for i in np.ndindex(*a.shape):
        v = a[i]
        if hasattr(v, 'op'):
            if v.op != 'const' or v.val != 0:
                out.add(i)
        elif v != 0:
            out.add(i)
    return out


M = 'egenerator.data.modules.data.pulse_data.PulseDataModule.'
F = [M + 'get_data_from_hdf', M + 'get_data_from_frame']
B = ('1 to 3 events, up to 4 pulses, arbitrary times and positive charges, '
     'several DOMs including strings 1 and 86, DOMs 1 and 60 and beyond 60')
B1 = tuple(int(v) + 1 for v in np.argwhere(~BAD)[0])
S = [[0, 1, 1], [0, 1, 1], [0, 86, 60]]
TWO = [[1, 21, 30], [0, 21, 30], [1, 21, 30]]
CASES = [
    dict(source='hdf', pulses=S), dict(source='frame', pulses=S),
    dict(source='hdf', n=2, pulses=TWO, quantiles=True),
    dict(source='hdf', n=5, pulses=[[e, 5, 1 + e % 2] for e in range(5)] + [
        [0, 5, 2]], doms=[[4, 5, 1], [3, 6, 2]], times=[[2, 5, 1], [1, 4, 1]],
         quantiles=True),
    dict(source='frame', pulses=[[0, 5, 1], [0, 5, 2], [0, 4, 1]],
         quantiles=True),
    dict(source='hdf', n=2, pulses=[[0, 86, [1, 60, 61, 64]],
                                    [1, [1, 86], 60], [0, 86, 60]]),
    dict(source='frame', pulses=[[0, 86, [1, 60, 61, 64]], [0, 86, 60],
                                 [0, [1, 86], 2]], quantiles=True),
    dict(source='hdf', n=3, order=[2, 0, 1], quantiles=True,
         pulses=[[2, 5, 6], [0, 5, 6], [1, 4, 61], [2, 5, 6]],
         doms=[[2, 5, 6], [1, 1, 1], [0, 3, 61]],
         times=[[1, 5, 6], [0, 9, 62], [2, 1, 60]]),
    dict(source='hdf', n=2, pulses=TWO, doms=[[1, 21, 30]], discard=True,
         quantiles=True),
    dict(source='hdf', n=2, pulses=TWO, doms=[[0, 21, 30], [0, 86, 1]],
         discard=True),
    dict(source='frame', pulses=S + [[0, 2, 2]], doms=[[0, 1, 1], [
        0, 3, 62]], discard=True, quantiles=True),
    dict(source='frame', pulses=S, doms=[[0, 86, 60]],
         times=[[0, 1, 1], [0, 2, 61], [0, 1, 1]], create=True),
    dict(source='hdf', pulses=S, doms='missing', times='missing'),
    dict(source='frame', pulses=S, doms='missing', times='missing'),
    dict(source='hdf', pulses=S, times=[]),
    dict(source='hdf', pulses=S, times=[[0, 1, 61]], doms=[]),
    dict(source='frame', pulses=S, times=[], doms=[]),
    dict(source='frame', pulses=[], quantiles=True),
    dict(source='frame', pulses=[[0, 4, 61]], doms=[[0, 1, 1]],
         discard=True),
    dict(source='hdf', n=2, pulses=[[1, 4, 61]], quantiles=True),
    dict(source='hdf', n=2, pulses=[], doms=[[1, 1, 1]], discard=True),
    dict(source='frame', pulses=S, masked='mask'),
    dict(source='frame', pulses=S, masked='union'),
    dict(source='hdf', pulses=S, no_pulses=True),
    dict(source='hdf', pulses=S, no_labels=True),
    dict(source='hdf', pulses=[[0] + list(B1), [0, 1, 1]], doms=[[0, 3, 3]],
         discard=True),
]
MORE = [dict(source='hdf', n=3, pulses=TWO + [[2, 1, 1], [1, 21, 30]],
             quantiles=True),
        dict(source='frame', pulses=S + S, quantiles=True)]
HARNESSES = [Harness('read', read, CASES, F, B, thorough_cases=CASES + MORE)]
ASSUMPTIONS = ['HDF files and frames are given as tables and dictionaries '
               '(pandas.HDFStore and icecube.dataclasses are stand-ins)',
               'events without any pulse are not asked for a time window']
