"""Tensor definitions: canonical order, lookups and serialization."""
import itertools
from copy import deepcopy
import numpy as np
from symx.runner import Harness
from egenerator.data import tensor as mod
from egenerator.data.tensor import DataTensor, DataTensorList

KINDS = ['data', 'label', 'weight', 'misc', 'prediction']


def one(env, i, name, rich=False, like=None):
    """A tensor definition with symbolic entries."""
    kw = {}
    if rich:
        kw = dict(
            vector_info=[None, {'type': 'index', 'reference': 'x'},
                         {'type': 'value', 'reference': 'y'}][i % 3],
            trafo=bool(env.choose('trafo%d' % i, 0, 1)),
            trafo_reduce_axes=(1, 2)[:i % 3],
            trafo_log=[None, [True, False], False][(i + 1) % 3],
            trafo_log_axis=[-1, 1][i % 2], trafo_batch_axis=i % 2)
    if rich:
        kw.update({k: env.real('spec%d_%s' % (i, k))
                   for k in rich[:2 if i % 2 else 3]})
    return DataTensor(
        name, [None, 2] if rich else [None, env.int('shape%d' % i, 1, 9)],
        KINDS[i % 5], 'float32', exists=bool(env.choose(
            'exists%d' % i, 0, 1)) if i < 2 else True, **kw)


def same(a, b):
    return a.__class__ is b.__class__ and a.__dict__ == b.__dict__


def order(env, case):
    """Every order of the same tensors gives the same list."""
    n = case['n']
    names = [env.key('name%d' % i) for i in range(n)]
    tensors = [one(env, i, k) for i, k in enumerate(names)]
    before = [deepcopy(t) for t in tensors]
    if any(names[i] == names[j] for i in range(n) for j in range(i)):
        env.raises(ValueError, lambda: DataTensorList(tensors),
                   'duplicate names are refused')
        return
    perms = list(itertools.permutations(range(n)))
    perm = perms[env.choose('perm', 0, len(perms) - 1)]
    a = DataTensorList(tensors)
    b = DataTensorList([tensors[i] for i in perm])
    env.check(bool(a == b) and not bool(a != b), 'order does not matter')
    for q in (a, b, DataTensorList(a)):
        env.check(q.len == n and len(q.list) == n and len(q.names) == n,
                  'number of tensors')
        for i in range(n):
            t = q.list[i]
            if i:
                env.check(q.names[i - 1] < q.names[i], 'sorted by name')
            env.check(q.names[i] == t.name and q.get_name(i) == t.name,
                      'names')
            env.check(q.get_index(t.name) == i, 'index')
            env.check(same(q[t.name], t), 'tensor of a name')
            env.check(q.shapes[i] == t.shape and q.types[i] == t.type and
                      q.exists[i] is t.exists, 'properties')
        for i in range(n):
            j = q.get_index(names[i])
            env.check(0 <= j < n and same(q.list[j], before[i]),
                      'definition of a tensor')
            env.check(q.list[j] is not tensors[i], 'copies')
    # the definitions that were handed in are independent of the list
    env.check(all(same(t, u) for t, u in zip(tensors, before)),
              'tensors are left alone')
    for t in tensors:
        t.exists = 'changed'
    env.check(all(t.exists != 'changed' for t in a.list), 'independence')


def unequal(env, case):
    """Lists are equal iff all of their definitions are."""
    n = case['n']
    x = [one(env, i, 'n%d' % i) for i in range(n)]
    y = [DataTensor(t.name, [None, env.int('other%d' % i, 1, 9)], t.type,
                    t.dtype, exists=t.exists) for i, t in enumerate(x)]
    m = env.choose('length', n - 1, n)
    a, b = DataTensorList(x), DataTensorList(y[:m])
    want = m == n and all(bool(p.shape[1] == q.shape[1])
                          for p, q in zip(x, y))
    env.check(bool(a == b) == want and bool(a != b) == (not want),
              'equality')
    env.check(not bool(a == 3), 'other types')


def differ(env, case):
    """Any setting that differs makes tensors and lists different."""
    base = dict(name='a', shape=[None, 2], tensor_type='data',
                dtype='float32', exists=True, vector_info=None, trafo=False,
                trafo_reduce_axes=(), trafo_log=[True, False],
                trafo_log_axis=-1, trafo_batch_axis=0, unit='m')
    k = case['setting']
    new, old = dict(base), dict(base)
    if case['values'] is None:
        old[k], new[k] = env.int('old', 0, 5), env.int('new', 0, 5)
    else:
        old[k], new[k] = case['values'][0], case['values'][1]
    other = one(env, 1, 'b')
    t, u = DataTensor(**old), DataTensor(**new)
    a, b = DataTensorList([t, other]), DataTensorList([other, u])
    want = bool(old[k] == new[k])
    env.check(bool(t == u) == want and bool(t != u) == (not want),
              'tensors')
    env.check(bool(a == b) == want and bool(a != b) == (not want), 'lists')
    env.check(bool(a == DataTensorList(a)), 'equal')


def serialize(env, case):
    """A serialized list describes the same tensors."""
    n = case['n']
    names = [env.key('name%d' % i) for i in range(n)]
    if any(names[i] == names[j] for i in range(n) for j in range(i)):
        env.check(True, 'unique')
        return
    tensors = [one(env, i, k, rich=case['specs'])
               for i, k in enumerate(names)]
    a = DataTensorList(tensors)
    s = a.serialize()
    env.check(len(s) == n and all(isinstance(d, dict) for d in s),
              'serialized list')
    kept = deepcopy(s)
    for b in (DataTensorList(s), a.deserialize(s)):
        env.check(bool(a == b), 'round trip')
        for t, u in zip(a.list, b.list):
            for k in t.__dict__:
                env.check(u.__dict__.get(k) == t.__dict__[k],
                          'attribute ' + k)
            env.check(set(t.specs) == set(u.specs), 'specs')
    env.check(s == kept, 'the serialized list is left alone')
    s[0]['exists'] = 'changed'
    s[0]['specs'].clear()
    env.check(all(t.exists != 'changed' for t in a.list) and bool(
        a == DataTensorList(tensors)), 'independence')


def refuse(env, case):
    """Definitions that are not valid are refused."""
    k = env.choose('what', 0, 6)
    kw = dict(name='n', shape=[None, 2], tensor_type='data', dtype='float32')
    bad = [dict(shape=None), dict(tensor_type='other'), dict(dtype=np.float32),
           dict(dtype='float33'), dict(trafo_log_axis=1.5),
           dict(vector_info={'type': 'other'}),
           dict(shape=[None, None], trafo_log=True)][k]
    kw.update(bad)
    env.raises(ValueError, lambda: DataTensor(**kw), 'refused')


def logs(env, case):
    """One flag for all entries is the same as one flag per entry."""
    n, v = case['n'], bool(env.choose('log', 0, 1))
    ax = [-1, 1][env.choose('axis', 0, 1)]
    t = DataTensor('n', [None, n], 'data', 'float32', trafo=True,
                   trafo_log=v, trafo_log_axis=ax)
    u = DataTensor('n', [None, n], 'data', 'float32', trafo=True,
                   trafo_log=[v] * n, trafo_log_axis=ax)
    env.check(list(t.trafo_log) == [v] * n and bool(t == u), 'flags')
    for ax, m in ((1, n), (-2, n), (2, n + 1), (-1, n + 1), (0, n + 2)):
        t = DataTensor('n', [n + 2, n, n + 1], 'data', 'float32', trafo=True,
                       trafo_log=v, trafo_log_axis=ax)
        env.check(list(t.trafo_log) == [v] * m, 'flags of the axis')


def spelling(env, case):
    """Names that only differ in their spelling have one order as well."""
    names = case['names']
    shapes = [env.int('shape%d' % i, 1, 9) for i in range(len(names))]
    tensors = [DataTensor(k, [None, s], 'data', 'float32')
               for k, s in zip(names, shapes)]
    perms = list(itertools.permutations(range(len(names))))
    perm = perms[env.choose('perm', 0, len(perms) - 1)]
    a = DataTensorList(tensors)
    b = DataTensorList([tensors[i] for i in perm])
    env.check(a.names == b.names and bool(a == b), 'order does not matter')
    for k, s in zip(names, shapes):
        env.check(b.names[b.get_index(k)] == k, 'index')
        env.eq(b[k].shape[1], s, 'tensor of a name')
        env.eq(DataTensorList(b.serialize())[k].shape[1], s, 'serialized')


def patched(f):
    def g(env, case):
        env.patch_np(mod)
        return f(env, case)
    return g


T = 'egenerator.data.tensor.DataTensor'
L = T + 'List.'
HARNESSES = [
    Harness('order', patched(order), [dict(n=1), dict(n=3)], [
        L + '__init__', L + '__eq__', L + '__getitem__', L + 'get_index',
        L + 'get_name'], 'up to 3 (4) tensors', max_paths=20000,
        thorough_cases=[dict(n=4)]),
    Harness('unequal', patched(unequal), [dict(n=1), dict(n=3)], [
        L + '__eq__', T + '.__eq__'], 'up to 3 tensors'),
    Harness('differ', patched(differ), [
        dict(setting=k, values=v) for k, v in (
            ('name', ['a', 'c']), ('shape', [[None, 2], [2, 2]]),
            ('tensor_type', ['data', 'misc']),
            ('dtype', ['float32', 'float64']), ('exists', [True, False]),
            ('vector_info', [None, {'type': 'index', 'reference': 'b'}]),
            ('trafo', [True, False]), ('trafo_reduce_axes', [(), (1,)]),
            ('trafo_log', [[True, False], [False, False]]),
            ('trafo_log_axis', [-1, 1]), ('trafo_batch_axis', None),
            ('unit', None))], [L + '__eq__', T + '.__eq__'],
        'two tensors'),
    Harness('serialize', patched(serialize), [
        dict(n=1, specs=['a', 'b', 'c']),
        dict(n=2, specs=['units', 'type', 'x']),
        dict(n=3, specs=['specs', 'type', 'y'])],
        [L + 'serialize', L + 'deserialize', T + '.to_dict'],
        'up to 3 tensors with up to 3 further settings', max_paths=20000),
    Harness('spelling', patched(spelling), [
        dict(names=['a', 'A', 'b']), dict(names=['x_1', 'x1', 'x_10']),
        dict(names=['x_2', 'x_10', 'X_2'])], [L + '__init__'],
        '3 given names in every order'),
    Harness('refuse', patched(refuse), [{}], [T + '.__init__'],
            'one wrong setting'),
    Harness('logs', patched(logs), [dict(n=1), dict(n=4)], [
        T + '.__init__'], 'up to 4 entries')]
ASSUMPTIONS = []
