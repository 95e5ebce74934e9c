"""Data handler: events keep their own data when batches are filtered."""
import types
import numpy as np
from symx.runner import Harness
from props import datafx as dx
from egenerator.data.handler import base, modular


def rows(a, keep):
    return [np.asarray(a)[i] for i in keep]


def by_event(ids):
    """Rows grouped by event (the order of different events is free)."""
    return np.argsort([int(i[0]) for i in np.asarray(ids)], kind='stable')


def same(env, got, want, label):
    got = np.asarray(got)
    env.check(len(got) == len(want), label + ' (number)')
    for g, w in zip(got, want):
        g, w = np.asarray(g), np.asarray(w)
        env.check(g.shape == w.shape, label + ' (shape)')
        for i in np.ndindex(*w.shape):
            env.eq(g[i], w[i], label)


NUM = {'data': 'n', 'label': 'n', 'misc': 'n', 'weight': 'n'}


def filtered(env, case):
    """Exactly the selected events are left, each with its own data."""
    kind, n = case['kind'], case['n']
    env.patch_np(base, modular)
    h = dx.handler(kind)
    data = dx.arrays(env, kind, n, case.get('values', {}))
    keep_data = {k: None if v is None else np.array(v)
                 for k, v in data.items()}
    dx.give(h, data, {k: n for k in dx.KINDS
                      if h._data[k + '_tensors'].len})
    score = env.array('score', (n,))
    mask = score > 0
    f = h._sub_components['filter_module']
    f.mask = mask
    get = {'hdf': h.get_data_from_hdf, 'frame': h.get_data_from_frame,
           'create': h.create_data_from_frame}[case['method']]
    num, batch = get('a file', *case.get('args', ()))
    keep = [i for i in range(n) if bool(np.asarray(score)[i] > 0)]
    for k in dx.KINDS:
        calls = h._sub_components[k + '_module'].calls
        env.check(calls == [(case['method'], ('a file',) + tuple(
            case.get('args', ())), {})], 'call of the %s module' % k)
    env.check(len(f.calls) == 1, 'call of the filter')
    source, args, kw = f.calls[0]
    env.check(source == ('hdf' if case['method'] == 'hdf' else 'frame'),
              'filter of the source')
    env.check(args[0] == 'a file' and args[1] is h.tensors
              and args[2] == n and len(args[3]) == h.tensors.len
              and tuple(args[4:]) == tuple(case.get('args', ())) and not kw,
              'arguments of the filter')
    for t, v in zip(h.tensors.list, args[3]):
        env.check((v is None) == (not t.exists), 'batch of the filter')
        if v is not None:
            same(env, v, list(keep_data[t.name]), 'batch of the filter')
    if not keep:
        env.check(num is None and batch is None, 'no event is left')
        return
    env.check(num == len(keep), 'number of events')
    env.check(len(batch) == h.tensors.len, 'one array per tensor')
    for t, v in zip(h.tensors.list, batch):
        a = keep_data[t.name]
        if not t.exists:
            if case['method'] == 'frame':
                env.check(v is not None and np.asarray(v).dtype
                          == np.dtype(t.dtype) and np.shape(v) == ()
                          and v == 0, 'missing tensor')
            else:
                env.check(v is None, 'missing tensor')
        elif t.vector_info is None:
            same(env, v, rows(a, keep), 'data of the selected events')
        elif t.vector_info['type'] == 'value':
            ids = keep_data[t.vector_info['reference']]
            want = [i for e in keep for i in range(len(ids))
                    if ids[i, 0] == e]
            j = h.tensors.get_index(t.vector_info['reference'])
            same(env, v if len(v) != len(batch[j]) else rows(
                v, by_event(batch[j])), rows(a, want),
                'vectors of the selected events')
        else:
            want = [i for e in keep for i in range(len(a)) if a[i, 0] == e]
            new = []
            for i in want:
                r = np.array(a[i])
                r[0] = keep.index(a[i, 0])
                new.append(r)
            same(env, rows(v, by_event(v)), new,
                 'indices of the selected events')
            env.check(np.asarray(v).ndim == 2, 'rank of the indices')


def structure(env, case):
    """Batch and event structure are inverse to each other."""
    env.patch_np(base, modular)
    h = dx.handler('small')
    n, m = case['n'], case['m']
    vals = env.array('v', (m, 2))
    ids = np.zeros((m, 2), dtype=np.int32)
    for i in range(m):
        ids[i] = env.choose('id%d' % i, 0, n - 1), i
    ids = env.native(ids)
    v0 = np.array(vals)
    ev, ei = h.batch_to_event_structure(vals, ids, n)
    env.check(len(ev) == n and len(ei) == n, 'one entry per event')
    order = []
    for e in range(n):
        mine = [i for i in range(m) if ids[i, 0] == e]
        order += mine
        same(env, ev[e], rows(v0, mine), 'values of an event')
        same(env, ei[e], rows(ids, mine), 'indices of an event')
    bv, bi = h.event_to_batch_structure(ev, ei, n)
    same(env, bv, rows(v0, order), 'values of a batch')
    same(env, bi, rows(ids, order), 'indices of a batch')
    env.check(np.asarray(bv).shape == (m, 2) and np.asarray(
        bi).shape == (m, 2), 'shapes of a batch')
    wrong = [np.array(x) for x in ei]
    for e in range(n):
        if len(wrong[e]):
            wrong[e][0, 0] += 1
            env.raises(AssertionError, lambda: h.event_to_batch_structure(
                ev, wrong, n), 'indices of another event')
            break
    else:
        env.check(m == 0, 'indices of another event')
    env.raises(AssertionError, lambda: h.event_to_batch_structure(
        ev, ei, n + 1), 'wrong number of events')


def refused(env, case):
    """Missing and contradicting data is not accepted."""
    env.patch_np(base, modular)
    kind, n = 'full', 2
    h = dx.handler(kind)
    values = {'x_pulses': 1, 'a_times': 1}
    data = dx.arrays(env, kind, n, values, {k: [0] for k in values})
    h._sub_components['filter_module'].mask = np.ones(n, dtype=bool)
    k = dx.KINDS[env.choose('module', 0, 3)]
    nums = {k: n for k in dx.KINDS}
    dx.give(h, data, {j: v for j, v in nums.items() if j != k})
    num, batch = h.get_data_from_hdf('file')
    env.check(num is None and batch is None, 'missing data')
    other = env.choose('other', 0, 3)
    if other == n:
        other = 4
    nums[k] = other
    dx.give(h, data, nums)
    env.raises(ValueError, lambda: h.get_data_from_hdf('file'),
               'different numbers of events')
    names = [t.name for t in h.tensors.list
             if t.exists and t.vector_info is None]
    name = names[env.choose('tensor', 0, len(names) - 1)]
    for bad in (lambda a: a[..., None], lambda a: np.concatenate(
            [a, a], axis=-1)):
        d = dict(data)
        d[name] = env.wrap(bad(np.asarray(data[name])))
        if d[name].ndim == 1:
            continue
        dx.give(h, d, {k: n for k in dx.KINDS})
        env.raises(ValueError, lambda: h.get_data_from_hdf('file'),
                   'shape of ' + name)


def written(env, case):
    """Every module writes its own tensors in its own order."""
    kind, n = case['kind'], 2
    h = dx.handler(kind)
    data = dx.arrays(env, kind, n, case.get('values', {}))
    batch = [data[t.name] for t in h.tensors.list]
    calls = []

    def module(k):
        def write(data, frame, *a, **kw):
            calls.append((k, list(data), frame, a, kw))
        return types.SimpleNamespace(write_data_to_frame=write)
    for k in dx.KINDS:
        env.patch(h._sub_components, k + '_module', module(k))
    h.write_data_to_frame(batch, 'a frame', 'p', q=2)
    env.check(sorted(c[0] for c in calls) == sorted(dx.KINDS),
              'every module writes once')
    for k, d, frame, a, kw in calls:
        env.check(frame == 'a frame' and a == ('p',) and kw == {'q': 2},
                  'arguments of a module')
        ts = h._data[k + '_tensors'].list
        env.check(len(d) == len(ts), 'tensors of a module')
        for t, v in zip(ts, d):
            env.check((v is None) == (not t.exists), 'missing tensors')
            if v is not None:
                same(env, v, list(np.asarray(data[t.name])),
                     'written tensor')


def converted(env, case):
    """The data of a frame becomes tensors in the canonical order."""
    kind, n = case['kind'], 1
    env.patch_np(base, modular)
    h = dx.handler(kind)
    data = dx.arrays(env, kind, n, case.get('values', {}))
    dx.give(h, data, {k: n for k in dx.KINDS
                      if h._data[k + '_tensors'].len})
    h._sub_components['filter_module'].mask = np.ones(n, dtype=bool)

    def convert(x, *a, **k):
        return 'tensor', x
    env.patch(base, 'tf', types.SimpleNamespace(
        convert_to_tensor=convert, constant=convert))
    out = h.get_tensor_from_frame('a frame', *case.get('args', ()))
    env.check(len(out) == h.tensors.len, 'one tensor per definition')
    for t, v in zip(h.tensors.list, out):
        if t.exists:
            env.check(isinstance(v, tuple) and v[0] == 'tensor',
                      'tensors of existing data')
            same(env, v[1], list(np.asarray(data[t.name])),
                 'data of a tensor')
        else:
            v = v[1] if isinstance(v, tuple) else v
            env.check(np.shape(v) == () and v == 0, 'missing tensor')


H = 'egenerator.data.handler.'
F = [H + 'modular.ModuleDataHandler._get_data',
     H + 'modular.ModuleDataHandler._filter_data',
     H + 'base.BaseDataHandler._check_data_structure',
     H + 'base.BaseDataHandler.batch_to_event_structure',
     H + 'base.BaseDataHandler.event_to_batch_structure']
B = ('up to 3 (thorough 4) events with 0 to 3 vector entries of any event, '
     'arbitrary values and filters')
CASES = [
    dict(kind='small', n=2, values={'x_pulses': 2}, method='hdf'),
    dict(kind='small', n=3, values={'x_pulses': 3}, method='hdf'),
    dict(kind='small', n=2, values={'x_pulses': 0}, method='hdf'),
    dict(kind='small', n=1, values={'x_pulses': 2}, method='frame'),
    dict(kind='full', n=2, values={'x_pulses': 2, 'a_times': 1},
         method='hdf', args=['p']),
    dict(kind='full', n=1, values={'x_pulses': 1, 'a_times': 1},
         method='frame'),
    dict(kind='full', n=2, values={'x_pulses': 1, 'a_times': 1},
         method='frame', args=['p', 2]),
    dict(kind='full', n=2, values={'x_pulses': 1, 'a_times': 2},
         method='create'),
    dict(kind='plain', n=3, method='hdf'),
    dict(kind='plain', n=2, method='frame'),
]
MORE = [dict(kind='small', n=4, values={'x_pulses': 3}, method='hdf'),
        dict(kind='full', n=3, values={'x_pulses': 3, 'a_times': 2},
             method='hdf')]
HARNESSES = [
    Harness('filtered', filtered, CASES, F, B, thorough_cases=CASES + MORE),
    Harness('structure', structure, [dict(n=n, m=m) for n, m in (
        (1, 0), (1, 2), (2, 2), (2, 3), (3, 3))], F[3:], B),
    Harness('written', written, [
        dict(kind='full', values={'x_pulses': 1, 'a_times': 2}),
        dict(kind='plain'), dict(kind='small', values={'x_pulses': 2})],
        [H + 'modular.ModuleDataHandler._write_data_to_frame'], '2 events'),
    Harness('converted', converted, [
        dict(kind='full', values={'x_pulses': 1, 'a_times': 2}),
        dict(kind='plain', args=['p'])],
        [H + 'base.BaseDataHandler.get_tensor_from_frame',
         H + 'base.BaseDataHandler.convert_data_to_tensor'], '1 event'),
    Harness('refused', refused, [{}], F[:1] + F[2:3], '2 events')]
