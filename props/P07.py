"""Batch generator: every event is delivered exactly once, under every
schedule of its processes."""
import os
import types
import numpy as np
from symx.runner import Harness
from symx import sched
from props import datafx as dx
from egenerator.data.handler import base


def content(env, h, kind, files, pulses):
    """{file: (number, batch)} and {event id: {name: rows}}."""
    out, events, num = {}, {}, 0
    for f, n in files.items():
        if n == 0:
            out[f] = (None, None)
            continue
        ids = {k: [e for e in range(n) for _ in range(
            (num + e + i) % (p + 1))] for i, (k, p) in enumerate(
            sorted(pulses.items()))}
        a = dx.arrays(env, kind, n, {k: len(v) for k, v in ids.items()},
                      ids, f + '_')
        # the first entry of the seed identifies the event
        seed = np.array(a['a_seed'])
        for e in range(n):
            seed[e, 0] = num + e
        a['a_seed'] = env.wrap(seed)
        for e in range(n):
            rows = {}
            for t in h.tensors.list:
                v = a[t.name]
                if v is None:
                    rows[t.name] = None
                elif t.vector_info is None:
                    rows[t.name] = np.array(np.asarray(v)[e])
                else:
                    i = ids[t.name if t.vector_info['type'] == 'value'
                            else t.vector_info['reference']]
                    rows[t.name] = [np.array(np.asarray(v)[j])
                                    for j in range(len(i)) if i[j] == e]
            events[num + e] = rows
        num += n
        out[f] = (n, [a[t.name] for t in h.tensors.list])
    return out, events


class Random(object):
    """Arbitrary choices instead of random numbers."""

    def __init__(self, env, np_):
        self.env, self.n, self.np = env, 0, np_

    def order(self, n):
        left, out = list(range(n)), []
        while left:
            self.n += 1
            out.append(left.pop(self.env.choose(
                'draw%d' % self.n, 0, len(left) - 1)))
        return out

    def shuffle(self, x):
        x[:] = [x[i] for i in self.order(len(x))]

    def permutation(self, n):
        if isinstance(n, (int, np.integer)):
            return np.array(self.order(n), dtype=int)
        return self.np.asarray(n)[self.order(len(n))]

    def RandomState(self, seed=None):                       # noqa: N802
        return self

    def choice(self, files, *a, **k):
        self.n += 1
        return files[self.env.choose('draw%d' % self.n, 0, len(files) - 1)]


class Numpy(object):
    def __init__(self, np_, random):
        self._np, self.random = np_, random

    def __getattr__(self, k):
        return getattr(self._np, k)


def deliver(env, case):
    kind = case.get('kind', 'small')
    h = dx.handler(kind)
    files = dict(case['files'])
    env.patch_np(base)
    rnd = Random(env, base.np)
    env.patch(base, 'np', Numpy(base.np, rnd))
    data, events = content(env, h, kind, files, case.get(
        'pulses', {'x_pulses': 1}))
    s = sched.Sched(env, case.get('delays', 1))
    mp = sched.Multiprocessing(s)
    env.patch(base, 'multiprocessing', mp)
    env.patch(base, 'time', sched.Time(s))
    env.patch(base, 'glob', types.SimpleNamespace(
        glob=lambda p: [f for f in files if f.startswith(p)]
        + [f for f in case.get('gone', []) if f.startswith(p)]))
    fake = types.SimpleNamespace(path=types.SimpleNamespace(
        exists=lambda f: f in files, **{k: getattr(os.path, k) for k in (
            'join', 'basename', 'dirname', 'isfile')}))
    env.patch(base, 'os', fake)
    loads = []

    def load(f, *a, **k):
        loads.append((f, a, k))
        n, d = data[f]
        return n, None if d is None else [
            None if v is None else (env.wrap(np.array(v)) if np.asarray(
                v).dtype == object else np.array(v)) for v in d]
    env.patch(h, 'get_data_from_hdf', load)
    kw = dict(case.get('kw', {}))
    forever = case.get('take')
    got, end = [], []

    def consume():
        g = h.get_batch_generator(
            case.get('pattern', 'f'), case['size'],
            sample_randomly=case.get('random', False),
            pick_random_files_forever=bool(forever), **kw)
        for b in g:
            got.append(b)
            if forever and len(got) == forever:
                break
        end.append(True)
    main = s.spawn('consumer', consume)
    try:
        ok = s.run(main)
    finally:
        h._untracked_data['mp_processes'] = []
        h._untracked_data['mp_managers'] = []
    env.check(ok and bool(end), 'all batches are delivered without a dead '
                                'lock')
    if not (ok and end):
        return
    compare(env, case, h, got, events, loads, files)


def compare(env, case, h, got, events, loads, files):
    forever, size = case.get('take'), case['size']
    seen = []
    seed_i = h.tensors.get_index('a_seed')
    for k, b in enumerate(got):
        env.check(len(b) == h.tensors.len, 'one array per tensor')
        seeds = np.asarray(b[seed_i])
        n = len(seeds)
        if forever or k + 1 < len(got):
            env.check(n == size, 'size of a batch')
        else:
            env.check(0 < n <= size, 'size of the last batch')
        who = [number(env, seeds[e, 0]) for e in range(n)]
        seen += who
        for t, v in zip(h.tensors.list, b):
            v = np.asarray(v)
            if env.sym is False:
                env.check(v.dtype == np.dtype(t.dtype), 'dtype')
            if not t.exists:
                env.check(v.shape == (n,) and not np.any(v), 'no data')
            elif t.vector_info is None:
                env.check(v.shape == (n,) + tuple(t.shape[1:]), 'shape')
                for e in range(n):
                    equal(env, v[e], events[who[e]][t.name],
                          'data of an event')
            else:
                rows, pos = [], []
                for e in range(n):
                    for r in events[who[e]][t.name]:
                        rows.append(r)
                        pos.append(e)
                env.check(v.shape == (len(rows),) + tuple(t.shape[1:]),
                          'vectors of a batch')
                for r, e, x in zip(rows, pos, v):
                    if t.vector_info['type'] == 'index':
                        env.eq(x[0], e, 'index of the event in the batch')
                        x, r = x[1:], r[1:]
                    equal(env, x, r, 'vectors of an event')
    if forever:
        env.check(set(seen) <= set(events), 'events of the files')
        return
    rep = case.get('kw', {}).get('num_repetitions', 1)
    env.check(sorted(seen) == sorted(list(events) * rep),
              'every event is delivered exactly once')
    env.check(sorted(f for f, _, _ in loads) == sorted(files),
              'every file is read once')
    if not case.get('random') and case.get('kw', {}).get('num_jobs', 1) == 1 \
            and rep == 1:
        env.check(seen == sorted(events), 'order of the events')


def number(env, v):
    return int(v.val) if hasattr(v, 'val') else int(v)


def equal(env, got, want, label):
    got, want = np.asarray(got), np.asarray(want)
    env.check(got.shape == want.shape, label + ' (shape)')
    for i in np.ndindex(*want.shape):
        env.eq(got[i], want[i], label)


H = 'egenerator.data.handler.base.BaseDataHandler.'
F = [H + 'get_batch_generator', H + 'batch_to_event_structure']
B = ('up to 3 files with up to 2 events, 1 or 2 loader processes, batches of '
     '1 to 3 events, all schedules with up to 1 (thorough 3) delays')
ONE = [('f1', 2), ('f2', 1)]
TWO = {'num_jobs': 2}
CASES = [
    dict(files=ONE, size=2), dict(files=ONE, size=2, kw=TWO),
    dict(files=ONE, size=1, kw=dict(TWO, file_capacity=2)),
    dict(files=[('f1', 1), ('f2', 0)], size=1, kw=TWO),
    dict(files=[('f1', 0)], size=2),
    dict(files=[('f1', 0), ('f2', 1)], size=3),
    dict(files=ONE + [('f3', 1)], size=2, kw=dict(num_add_files=1)),
    dict(files=[('f1', 1), ('f2', 1)], size=2,
         kw=dict(num_add_files=1, num_jobs=2)),
    dict(files=[('f1', 2)], size=3, kw=dict(num_repetitions=2)),
    dict(files=[('f1', 1), ('f2', 1)], size=1, kw=dict(num_repetitions=2)),
    dict(files=[('f1', 2)], size=5, kw=dict(num_repetitions=2)),
    dict(files=[('f1', 2)], size=1, kw=dict(batch_capacity=1)),
    dict(files=[('f1', 2), ('f2', 1)], size=2, random=True, delays=0),
    dict(files=[('f1', 2), ('f2', 1)], size=2, random=True, take=2,
         delays=0),
    dict(files=[('f1', 1), ('f2', 1)], size=1, take=3, kw=TWO, delays=0),
    dict(files=[('f1', 2)], size=2, pattern=['f', 'g']),
    dict(files=[('f1', 1)], size=2, gone=['f0', 'f9'], kw=TWO),
    dict(files=[], size=2),
    dict(files=[], gone=['f1'], size=2),
    dict(kind='mixed', files=ONE, size=2,
         pulses={'x_pulses': 2, 'a_times': 1}),
]
DEEP = [dict(c, delays=1 if c.get('random') else (
    3 if len(c['files']) < 2 else 2)) for c in CASES]
HARNESSES = [Harness('deliver', deliver, CASES, F, B, max_paths=60000,
                     thorough_cases=DEEP, case_seconds=600)]
ASSUMPTIONS = [
    'multiprocessing (processes, locks, values, manager queues), time.sleep, '
    'glob and the random generator are replaced by stand-ins; processes '
    'interleave at operations on shared objects']
