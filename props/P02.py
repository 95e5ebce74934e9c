"""Setup manager: merged configurations."""
import os
import types
from copy import deepcopy
import numpy as np
import tensorflow as tf
from symx.runner import Harness
from egenerator.settings import setup_manager as mod
from egenerator.settings.setup_manager import SetupManager


class Yaml(object):
    """A loader for 'files' that are dictionaries."""

    def __init__(self, files):
        self.files, self.loads = files, []

    def YAML(self, typ=None, **k):                           # noqa: N802
        return types.SimpleNamespace(load=self.load)

    def load(self, f):
        self.loads.append(f)
        return deepcopy(self.files[f])


class Handle(str):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def setup(env, files):
    y = Yaml(files)
    env.patch(mod, 'yaml', y)
    env.patch(mod, 'open', lambda f, *a, **k: Handle(f))
    return y


def merge(env, case):
    """Every setting is defined by exactly one file."""
    files, vals, keys = {}, [], []
    for i, m in enumerate(case['files']):
        ks = [env.key('key%d_%d' % (i, j)) for j in range(m)]
        if any(ks[a] == ks[b] for a in range(m) for b in range(a)):
            env.check(True, 'no YAML file')
            return
        vs = []
        for j in range(m):
            v = env.real('value%d_%d' % (i, j))
            vs.append([v, [v, 'text'], {'nested': v}][
                (i * case.get('step', 1) + j + case.get('off', 0)) % 3])
        files['/dir/f%d.yaml' % i] = dict(zip(ks, vs))
        keys.append(ks)
        vals.append(vs)
    over = env.choose('precision', -1, len(files) - 1)
    if over >= 0:
        files['/dir/f%d.yaml' % over]['float_precision'] = 'float64'
    setup(env, files)
    before = deepcopy(files)
    flat = [(i, k) for i, ks in enumerate(keys) for k in ks]
    dup = any(a[1] == b[1] for n, a in enumerate(flat) for b in flat[:n])
    paths = sorted(files)
    if dup:
        env.raises(ValueError, lambda: SetupManager(paths),
                   'settings are only defined once')
        return
    m = SetupManager(paths if case.get('list', 1) else tuple(paths))
    c = m.get_config()
    for ks, vs in zip(keys, vals):
        for k, v in zip(ks, vs):
            env.check(k in c, 'setting is kept')
            env.check(deepcopy(c[k]) == v, 'value of a setting')
    p = 'float64' if over >= 0 else 'float32'
    env.check(c['float_precision'] == p and c['tf_float_precision'] is
              getattr(tf, p) and c['np_float_precision'] is getattr(np, p),
              'precision')
    env.check(c['config_name'] == '__'.join('f%d' % i for i in range(
        len(files))), 'name of the configuration')
    env.check(files == before, 'files are left alone')
    # a returned configuration can be changed without side effects
    d = m.get_config()
    env.check(set(map(id, d)) is not None and len(d) == len(c), 'copy')
    for ks in keys:
        for k in ks:
            v = c[k]
            if isinstance(v, dict):
                v['nested'] = 'changed'
            elif isinstance(v, list):
                v[1] = 'changed'
            c[k] = 'changed'
    c['new'] = 1
    e = m.get_config()
    env.check('new' not in e, 'configurations are independent')
    for ks, vs in zip(keys, vals):
        for k, v in zip(ks, vs):
            env.check(e[k] == v, 'configurations are independent')
    # and managers do not share anything
    n = SetupManager(paths[:1])
    env.check(n.get_config()['float_precision'] == (
        'float64' if over == 0 else 'float32'), 'defaults are kept')


def expand(env, case):
    """Strings refer to other settings at every depth."""
    v = env.int('number', 0, 9)
    a = 'dir%d' % env.choose('a', 0, 2)
    num = env.choose('num', 0, 3)
    conf = {'base': a, 'number': num, 'real': v,
            'path': '{base}/x_{number}', 'deep': {
                'path': '{base}_{config_name}', 'more': {
                    'p': '{number}{base}', 'n': v, 'flag': True},
                'list': ['{base}']}, 'plain': 'text', 'none': None}
    first = conf.pop('path')
    files = {'/a/one.yaml': {'path': first} if case['first'] else {},
             '/a/two.yaml': conf}
    if not case['first']:
        conf['path'] = first
    setup(env, files)
    c = SetupManager(sorted(files)).get_config()
    env.check(c['path'] == '%s/x_%d' % (a, num), 'expanded string')
    env.check(c['deep']['path'] == a + '_one__two', 'nested string')
    env.check(c['deep']['more']['p'] == '%d%s' % (num, a),
              'deeply nested string')
    env.check(c['plain'] == 'text' and c['none'] is None and
              c['deep']['more']['flag'] is True and c['base'] == a,
              'other settings')
    env.eq(c['real'], v, 'other settings')
    env.eq(c['deep']['more']['n'], v, 'other settings')
    env.check(os.path.samefile(c['egenerator_dir'], os.path.join(
        os.path.dirname(mod.__file__), '../..')), 'directory of the project')


def refuse(env, case):
    setup(env, {'/a/b.yaml': {'x': 1}})
    k = env.choose('what', 0, 3)
    arg = ['/a/b.yaml', [], (), {'/a/b.yaml'}][k]
    env.raises(ValueError, lambda: SetupManager(arg), 'refused')


S = 'egenerator.settings.setup_manager.SetupManager.'
HARNESSES = [
    Harness('merge', merge, [dict(files=[1]), dict(files=[2, 1]),
                             dict(files=[1, 2]),
                             dict(files=[1, 1], step=0, off=2),
                             dict(files=[1, 2], off=2),
                             dict(files=[1, 1, 1], list=0)],
            [S + '_setup_config', S + 'get_config'],
            'up to 3 files and 4 settings', max_paths=20000,
            thorough_cases=[dict(files=[2, 2]), dict(files=[3, 1]), dict(files=[1, 3])]),
    Harness('expand', expand, [dict(first=0), dict(first=1)], [
        S + 'expand_strings'], 'one configuration, 3 levels'),
    Harness('refuse', refuse, [{}], [S + '__init__'], '4 arguments')]
ASSUMPTIONS = ['files hold dictionaries (YAML syntax is not considered); '
               'names differ from the automatically created settings']
