"""Label modules: parameters of each event in the documented order."""
import types
import numpy as np
import pandas as pd
from symx.runner import Harness
from props import datafx
from props.datafx import Store
from egenerator.data.tensor import DataTensorList, DataTensor
from egenerator.data.modules.labels import cascades, snowstorm_cascades, \
    snowstorm_track_segment, snowstorm_tracks

CASCADE = ['cascade_' + k for k in (
    'x', 'y', 'z', 'zenith', 'azimuth', 'energy', 't')]
SEGMENT = ['track_anchor_x', 'track_anchor_y', 'track_anchor_z', 'zenith',
           'azimuth', 'track_energy', 'track_anchor_time',
           'track_distance_end', 'track_stochasticity']


def track_names(n):
    out = ['zenith', 'azimuth', 'track_anchor_x', 'track_anchor_y',
           'track_anchor_z', 'track_anchor_time', 'track_energy',
           'track_distance_start', 'track_distance_end',
           'track_stochasticity']
    for i in range(n):
        out.append('cascade_%04d_energy' % i)
        if i:
            out.append('cascade_%04d_distance' % i)
    return out


MODULES = {
    'cascade': cascades.CascadeGeneratorLabelModule,
    'snow': snowstorm_cascades.SnowstormCascadeGeneratorLabelModule,
    'segment':
        snowstorm_track_segment.SnowstormTrackSegmentGeneratorLabelModule,
    'track': snowstorm_tracks.SnowstormTrackGeneratorLabelModule}
FILES = {'cascade': cascades, 'snow': snowstorm_cascades,
         'segment': snowstorm_track_segment, 'track': snowstorm_tracks}


def names_of(case):
    k = case['module']
    if k == 'track':
        return track_names(case.get('cascades', 5))
    if k == 'segment':
        return list(SEGMENT)
    return CASCADE + list(case.get('extra', []))


def make(case, **kw):
    k = case['module']
    m = MODULES[k]()
    args = dict(config_data=None, trafo_log=case.get('log', False),
                float_precision='float64', label_key='Labels')
    if k != 'segment':
        args['shift_cascade_vertex'] = case.get('shift', False)
    if k != 'cascade':
        args['snowstorm_key'] = case.get('key', 'Snow')
        args['num_snowstorm_params'] = case.get('snow', 0)
    if k == 'track' and 'cascades' in case:
        args['num_cascades'] = case['cascades']
    if k == 'snow' and 'extra' in case:
        args['additional_labels'] = list(case['extra'])
    args.update(kw)
    m.configure(**args)
    return m


def source(env, case, labels, snow):
    """Give labels {name: [value]} and snowstorm parameters [event][i]."""
    n = case.get('n', 1)
    mod = FILES[case['module']]
    if case['source'] == 'hdf':
        cols = {k: v for k, v in labels.items()}
        t = {'Labels': cols}
        if snow is not None:
            t['Snow'] = {
                'vector_index': np.array([i for r in snow
                                          for i in range(len(r))], dtype=int),
                'item': np.array([x for r in snow for x in r])}
        Store.tables = {k: pd.DataFrame(v) for k, v in t.items()}
        env.patch(mod, 'pd', datafx.pandas(Store))
        return lambda m: m.get_data_from_hdf('file', 'arg')
    f = {'Labels': {k: v[0] for k, v in labels.items()}}
    if snow is not None:
        f['Snow'] = list(snow[0])
    if case['source'] == 'create':
        return lambda m: m.create_data_from_frame(f)
    return lambda m: m.get_data_from_frame(f, 'arg')


def read(env, case):
    mod = FILES[case['module']]
    env.patch_np(mod)
    n, names = case.get('n', 1), names_of(case)
    lab = {}
    for k in names:
        kw = dict(smp=(-500, 500))
        if 'energy' in k:
            kw = dict(nonneg=True, smp=(0., 1e4))
        elif 'zenith' in k or 'azimuth' in k:
            kw = dict(smp=(0, 3.))
        lab[k] = [env.real('%s_%d' % (k, e), **kw) for e in range(n)]
    given = {k: list(v) for k, v in lab.items()}
    given['other'] = [1.] * n
    if case['module'] == 'segment':
        given['track_distance_start'] = [0.] * n
    s = case.get('snow', 0)
    snow = None
    if s and case.get('key', 'Snow') is not None:
        snow = [[env.real('snow%d_%d' % (i, e)) for i in range(s)]
                for e in range(n)]
    m = make(case)
    get = source(env, case, given, snow)
    for again in range(2 if case['source'] != 'hdf' else 1):
        num, res = get(m)
        env.check(num == n and len(res) == 1, 'number of events')
        x = np.asarray(res[0])
        t = m.data['label_tensors'].list[0]
        env.check(t.name == 'x_parameters' and tuple(t.shape) == (
            None, len(names) + s), 'label tensor')
        env.check(x.shape == (n, len(names) + s), 'shape')
        for e in range(n):
            got = dict(zip(names, x[e]))
            v = {k: w[e] for k, w in lab.items()}
            if case.get('shift') and case.get('cascades') != 0:
                shifted(env, case, got, v)
            else:
                for k in names:
                    env.eq(got[k], v[k], k)
            for i in range(s):
                env.eq(x[e, len(names) + i],
                       1. if snow is None else snow[e][i],
                       'snowstorm parameter')


def extension(env, got, energy, label):
    """Distance from the vertex to the maximum of the shower."""
    w = (1.01849 + 0.63176 * env.fn('log', energy + 1e-6)) * 0.63207
    w = env.ite(w > 0., w, 0. * w)
    # up to the rounding of the constants
    env.le(got, w + 1e-9 * (1. + w), label)
    env.le(w, got + 1e-9 * (1. + w), label)


def shifted(env, case, got, v):
    """All points move along the direction, with the speed of light."""
    trk = case['module'] == 'track'
    at, tm, zen, azi, en = ('track_anchor_', 'track_anchor_time', 'zenith',
                            'azimuth', 'cascade_0000_energy') if trk else (
        'cascade_', 'cascade_t', 'cascade_zenith', 'cascade_azimuth',
        'cascade_energy')
    left = [k for k in v if k not in [at + c for c in 'xyz'] + [tm]]
    s = (got[tm] - v[tm]) * 0.299792458
    extension(env, s, v[en], 'time at the maximum')
    sin, cos = (lambda a: env.fn('sin', a)), (lambda a: env.fn('cos', a))
    d = [-sin(v[zen]) * cos(v[azi]), -sin(v[zen]) * sin(v[azi]),
         -cos(v[zen])]
    for k, c in zip('xyz', d):
        env.eq(got[at + k], v[at + k] + c * s, at + k)
    if trk:
        for k in ('track_distance_start', 'track_distance_end'):
            left.remove(k)
            env.eq(got[k], v[k] - s, k)
        for i in range(1, case.get('cascades', 5)):
            k = 'cascade_%04d_' % i
            left.remove(k + 'distance')
            extension(env, got[k + 'distance'] - v[k + 'distance'] + s,
                      v[k + 'energy'], k + 'distance')
    for k in left:
        env.eq(got[k], v[k], k)


def refused(env, case):
    """Missing or contradicting data is skipped, not invented."""
    mod = FILES[case['module']]
    env.patch_np(mod)
    n, names, s = case.get('n', 1), names_of(case), case.get('snow', 0)
    lab = {k: [env.real('%s_%d' % (k, e)) for e in range(n)] for k in names}
    m = make(case)
    if case['module'] == 'segment':
        lab['track_distance_start'] = [0.] * n
        names = names + ['track_distance_start']
    snow = [[env.real('snow%d_%d' % (i, e)) for i in range(s)]
            for e in range(n)]
    what = case['what']
    if what == 'label':
        k = names[env.choose('missing', 0, len(names) - 1)]
        del lab[k]
    elif what == 'start':
        lab['track_distance_start'][env.choose('event', 0, n - 1)] = \
            env.real('start', pos=True)
    elif what == 'fewer':
        snow = [r[:-1] for r in snow]
    elif what == 'more':
        snow = [r + [1.] for r in snow]
    elif what == 'event':
        snow = snow + [list(snow[0])]
    elif what == 'hole':
        snow[-1] = snow[-1][:-1]
    num, res = source(env, case, lab, None if what == 'none' else snow)(m)
    env.check(num is None and res is None, 'no data')


def logs(env, case):
    """Exactly the configured labels are transformed logarithmically."""
    names, s = names_of(case), case.get('snow', 0)
    n = len(names)
    kind = case['kind']
    if kind == 'list':
        log = [env.choose('log%d' % i, 0, 1) == 1 for i in range(2)]
        log = [log[0]] + [False] * (n - 2) + [log[1]]
        want = log + [False] * s
    elif kind == 'none':
        log, want = None, None
    else:
        log = env.choose('log', 0, 1) == 1
        want = [log] * n + [False] * s
    m = make(dict(case, log=log if not isinstance(log, list) else list(log)))
    t = m.data['label_tensors'].list[0]
    if want is None:
        env.check(t.trafo_log is None or not any(t.trafo_log),
                  'no logarithm')
        env.check(t.trafo_log is None or len(t.trafo_log) == n + s,
                  'one flag per label')
    else:
        env.check(list(t.trafo_log) == want, 'one flag per label')
    env.check(t.trafo and t.exists and t.type == 'label' and t.dtype
              == 'float64' and tuple(t.shape) == (None, n + s),
              'label tensor')
    # a second module with these tensors, and one with others
    good = DataTensorList([DataTensor(
        name='x_parameters', shape=[None, n + s], tensor_type='label',
        dtype='float64', trafo=True, trafo_log=t.trafo_log)])
    make(dict(case, log=log), config_data=good)
    bad = DataTensorList([DataTensor(
        name='x_parameters', shape=[None, n + s + 1], tensor_type='label',
        dtype='float64', trafo=True)])
    env.raises(ValueError, lambda: make(dict(case, log=log),
                                        config_data=bad), 'other tensors')


F = ['egenerator.data.modules.labels.%s.%s.get_data_from_%s' % (f, c, s)
     for f, c in (('cascades', 'CascadeGeneratorLabelModule'),
                  ('snowstorm_cascades',
                   'SnowstormCascadeGeneratorLabelModule'),
                  ('snowstorm_track_segment',
                   'SnowstormTrackSegmentGeneratorLabelModule'),
                  ('snowstorm_tracks',
                   'SnowstormTrackGeneratorLabelModule'))
     for s in ('hdf', 'frame')]
B = ('1 to 2 (thorough 3) events, up to 5 cascades on a track, up to 3 '
     'snowstorm parameters, arbitrary labels, energies >= 0')
CASES = [
    dict(module='cascade', source='hdf', n=2),
    dict(module='cascade', source='hdf', n=2, shift=True),
    dict(module='cascade', source='frame', shift=True),
    dict(module='cascade', source='create'),
    dict(module='snow', source='hdf', n=2, snow=2, shift=True),
    dict(module='snow', source='hdf', n=2, snow=3, extra=['had', 'frac']),
    dict(module='snow', source='hdf', n=2, snow=1, key=None, extra=['had']),
    dict(module='snow', source='hdf', n=1, snow=0, shift=True),
    dict(module='snow', source='frame', snow=2, extra=['had'], shift=True),
    dict(module='snow', source='frame', snow=2, key=None),
    dict(module='snow', source='create', snow=1),
    dict(module='segment', source='hdf', n=2, snow=2),
    dict(module='segment', source='hdf', n=2, snow=1, key=None),
    dict(module='segment', source='frame', snow=2),
    dict(module='segment', source='create', snow=0),
    dict(module='track', source='hdf', n=2, snow=2, cascades=0, shift=True),
    dict(module='track', source='hdf', n=2, snow=1, cascades=1, shift=True),
    dict(module='track', source='hdf', n=1, cascades=3, shift=True),
    dict(module='track', source='hdf', n=2, cascades=3, snow=1, key=None),
    dict(module='track', source='frame', snow=2, cascades=2, shift=True),
    dict(module='track', source='create', snow=0),
]
MORE = [dict(c, n=3) for c in CASES if c['source'] == 'hdf'] + [
    dict(module='track', source='hdf', n=1, cascades=5, shift=True)]
BAD = []
for _m in ('cascade', 'snow', 'segment', 'track'):
    for _s in ('hdf', 'frame'):
        _c = dict(module=_m, source=_s, n=2 if _s == 'hdf' else 1)
        if _m != 'cascade':
            _c['snow'] = 2
        if _m == 'track':
            _c['cascades'] = 1
        BAD.append(dict(_c, what='label'))
        if _m == 'segment':
            BAD.append(dict(_c, what='start'))
        if _m != 'cascade':
            BAD += [dict(_c, what=w) for w in ('fewer', 'more', 'none')]
            if _s == 'hdf':
                BAD += [dict(_c, what=w) for w in ('event', 'hole')]
LOGS = [dict(c, kind=k) for k in ('list', 'all', 'none') for c in (
    dict(module='cascade'), dict(module='snow', snow=2),
    dict(module='snow', snow=1, extra=['had']), dict(module='segment', snow=2),
    dict(module='track', snow=2, cascades=0),
    dict(module='track', snow=0, cascades=1),
    dict(module='track', snow=1, cascades=3))]
HARNESSES = [
    Harness('read', read, CASES, F, B, thorough_cases=CASES + MORE),
    Harness('refused', refused, BAD, F, B),
    Harness('logs', logs, LOGS, [f.replace(
        'get_data_from_hdf', '_configure') for f in F[::2]], B)]
ASSUMPTIONS = ['HDF files are given as tables (pandas.HDFStore is a '
               'stand-in), frames as dictionaries']
