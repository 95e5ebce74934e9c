"""General filter: an event passes if it fulfils all constraints."""
import types
import numpy as np
import pandas as pd
from symx.runner import Harness
from props import datafx
from props.datafx import Store
from egenerator.data.modules.filters import general_filter, dummy
from egenerator.data.modules.filters.general_filter import \
    GeneralFilterModule

OPS = {'>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
       '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
       '==': lambda a, b: a == b}


def accept(env, case):
    env.patch_np(general_filter)
    env.patch(general_filter, 'pd', datafx.pandas(Store))
    n = case.get('n', 1)
    cons, cols, ok = [], {}, [[] for _ in range(n)]
    for i, (key, col, op) in enumerate(case['constraints']):
        if op == 'any':
            op = sorted(OPS)[env.choose('op%d' % i, 0, 4)]
        limit = env.real('limit%d' % i, smp=(-1, 1))
        cons.append((key, col, op, limit))
        if (key, col) not in cols:
            cols[(key, col)] = [env.real('v_%s_%s_%d' % (key, col, e),
                                         smp=(-1, 1)) for e in range(n)]
    m = GeneralFilterModule()
    m.configure(constraints=list(cons))
    tabs = {}
    for (key, col), v in cols.items():
        tabs.setdefault(key, {})[col] = v
    if case['source'] == 'hdf':
        t = {}
        for key, c in tabs.items():
            ints = [k for k in c if isinstance(k, int)]
            if ints:
                k = max(ints) + 1
                # vectors may have different lengths
                pos = [(e, i) for e in range(n)
                       for i in range(k + (e % 2) * case.get('ragged', 0))]
                t[key] = pd.DataFrame({
                    'vector_index': [i for e, i in pos],
                    'item': [c[i][e] if i in c else 0. for e, i in pos]})
            else:
                t[key] = pd.DataFrame(dict(c, other=[5.] * n))
        Store.tables = t
        mask = m.get_event_filter_mask_from_hdf('file', None, n, [])
    else:
        f = {}
        for key, c in tabs.items():
            ints = [k for k in c if isinstance(k, int)]
            if ints:
                f[key] = [c[i][0] if i in c else 0.
                          for i in range(max(ints) + 1)]
            elif key in case.get('objects', []):
                f[key] = types.SimpleNamespace(**{
                    k: v[0] for k, v in c.items()})
            else:
                f[key] = dict({k: v[0] for k, v in c.items()}, other=5.)
                f[key][key] = 5.
        mask = m.get_event_filter_mask_from_frame(f, None, n, [])
    mask = np.asarray(mask)
    env.check(mask.shape == (n,), 'one entry per event')
    for e in range(n):
        want = [OPS[op](cols[(key, col)][e], limit)
                for key, col, op, limit in cons]
        if mask[e]:
            env.check(env.and_(*want) if want else True,
                      'accepted events fulfil all constraints')
        else:
            env.check(env.not_(env.and_(*want)) if want else False,
                      'rejected events violate a constraint')
    if not cons:
        env.check(bool(mask.all()), 'no constraint')
    d = dummy.DummyFilterModule()
    d.configure()
    for f in (d.get_event_filter_mask_from_hdf,
              d.get_event_filter_mask_from_frame):
        x = np.asarray(f('file', None, n, []))
        env.check(x.shape == (n,) and bool(x.all()), 'dummy filter')


def refused(env, case):
    """Unknown operations and missing columns are errors."""
    env.patch_np(general_filter)
    env.patch(general_filter, 'pd', datafx.pandas(Store))
    v = env.real('v')
    Store.tables = {'a': pd.DataFrame({'x': [v, v]})}
    f = {'a': {'x': v}}
    for op in ('!=', '=', '=>', 'in', ''):
        m = GeneralFilterModule()
        m.configure(constraints=[('a', 'x', op, env.real('limit'))])
        env.raises(ValueError, lambda: m.get_event_filter_mask_from_hdf(
            'file', None, 2, []), 'unknown operation')
        env.raises(ValueError, lambda: m.get_event_filter_mask_from_frame(
            f, None, 1, []), 'unknown operation')
    for key, col in (('a', 'y'), ('b', 'x')):
        m = GeneralFilterModule()
        m.configure(constraints=[(key, col, '>', env.real('limit'))])
        env.raises((KeyError, AttributeError),
                   lambda: m.get_event_filter_mask_from_hdf(
            'file', None, 2, []), 'missing column')
        env.raises((KeyError, AttributeError),
                   lambda: m.get_event_filter_mask_from_frame(
            f, None, 1, []), 'missing column')


F = ['egenerator.data.modules.filters.general_filter.GeneralFilterModule.'
     'get_event_filter_mask_from_' + k for k in ('hdf', 'frame')]
B = ('up to 3 constraints with every operation on up to 3 events, every value '
     'and threshold')
A = [('a', 'x', 'any')]
CASES = [
    dict(source='hdf', n=2, constraints=[]),
    dict(source='frame', constraints=[]),
    dict(source='hdf', n=2, constraints=A),
    dict(source='hdf', n=1, constraints=A + [('b', 'x', 'any')]),
    dict(source='hdf', n=2, constraints=A + [('a', 'x', '<'),
                                             ('a', 'y', '>=')]),
    dict(source='hdf', n=2, constraints=[('s', 2, 'any'), ('a', 'x', '>')]),
    dict(source='hdf', n=2, constraints=[('s', 0, '<'), ('s', 1, '=='),
                                         ('a', 'x', '<=')]),
    dict(source='hdf', n=3, ragged=2, constraints=[('s', 1, '>'),
                                                   ('s', 0, '<=')]),
    dict(source='hdf', n=3, constraints=[('a', 'x', '=='),
                                         ('a', 'y', '>')]),
    dict(source='frame', constraints=A),
    dict(source='frame', constraints=A + [('b', 'x', 'any')]),
    dict(source='frame', constraints=A + [('a', 'y', 'any'),
                                          ('b', 'z', '>')]),
    dict(source='frame', constraints=[('s', 2, 'any'), ('s', 0, 'any')]),
    dict(source='frame', constraints=A + [('b', 'x', 'any')],
         objects=['b']),
]
MORE = [dict(source='hdf', n=3, constraints=A + [('b', 'x', 'any'),
                                                 ('s', 1, '<')]),
        dict(source='frame', constraints=A + [('b', 'x', 'any'),
                                              ('s', 1, 'any')])]
HARNESSES = [Harness('accept', accept, CASES, F, B,
                     thorough_cases=CASES + MORE, max_paths=20000),
             Harness('refused', refused, [{}], F, '1 constraint')]
ASSUMPTIONS = ['HDF files are given as tables, frames as dictionaries or '
               'objects (pandas.HDFStore is a stand-in)']
