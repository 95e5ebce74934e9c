"""Configurations: compatibility and isolation of component settings."""
import types
import numpy as np
from symx.runner import Harness
from egenerator.manager import component
from egenerator.manager import base
from egenerator.manager.component import Configuration, BaseComponent


def git(env):
    env.patch(component, 'version_control', types.SimpleNamespace(
        get_git_infos=lambda: ('abc', 'abcdef', 'origin', False)))


def build(env, tag, case, level=0):
    """A configuration and its description (a tree of symbolic values)."""
    d = {'class': case.get('class', 'Same'), 'settings': {}, 'mutable': {},
         'check': {}, 'subs': {}, 'free': []}
    if case.get('vary') == 'class':
        d['class'] = 'Class%d' % env.choose(tag + 'class', 0, 1)
    for k in case.get('settings', ()):
        d['settings'][k] = env.real(tag + 'set_' + k)
    if case.get('nested'):
        d['settings']['nested'] = [env.real(tag + 'list'), {
            'deep': env.real(tag + 'deep')}]
    if case.get('vary') == 'keys' and env.choose(tag + 'extra', 0, 1):
        d['settings']['extra'] = 1.
    for k in case.get('mutable', ()):
        if env.choose(tag + 'has_' + k, 0, 1):
            d['mutable'][k] = env.real(tag + 'mut_' + k)
    for k in case.get('check', ()):
        d['check'][k] = env.real(tag + 'check_' + k)
    if case.get('vary') == 'missing':   # keys that are None or do not exist
        for n, part in (('set_', d['settings']), ('check_', d['check'])):
            for k in list(part):
                how = env.choose(tag + n + k + '_is', 0, 2)
                if how == 1:
                    part[k] = None
                elif how == 2:
                    del part[k]
    for k, sub in case.get('subs', {}).items():
        if case.get('vary') == 'subs' and not env.choose(
                tag + 'sub_' + k, 0, 1):
            continue
        d['subs'][k] = build(env, tag + k + '_', sub, level + 1)
        if k in case.get('free', ()):
            d['free'].append(k)
    conf = config(d)
    d['conf'] = conf
    return d


def config(d):
    return Configuration(
        class_string=d['class'], settings=d['settings'],
        mutable_settings=d['mutable'], check_values=d['check'],
        mutable_sub_components=d['free'],
        sub_component_configurations={
            k: s['conf'].dict for k, s in d['subs'].items()})


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(
            equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            equal(x, y) for x, y in zip(a, b))
    return bool(a == b)


def compatible(a, b):
    if a['class'] != b['class'] or set(a['subs']) != set(b['subs']):
        return False
    if not equal(a['settings'], b['settings']) or not equal(
            a['check'], b['check']):
        return False
    return all(k in a['free'] or compatible(a['subs'][k], b['subs'][k])
               for k in a['subs'])


def compat(env, case):
    """Compatible: same class, settings, check values and (unless they are
    mutable) sub components; mutable settings do not matter."""
    git(env)
    a, b = build(env, 'a_', case), build(env, 'b_', case)
    got = a['conf'].is_compatible(b['conf'])
    env.check(got is compatible(a, b) if isinstance(got, bool) else False,
              'compatibility')
    env.check(a['conf'].is_compatible(a['conf']) is True, 'with itself')
    c = Configuration(**a['conf'].dict)
    env.check(c.is_compatible(a['conf']) and equal(c.dict, a['conf'].dict),
              'copy of a configuration')


class Part(BaseComponent):
    """A component with given settings."""

    def _configure(self, config, mutable=None, free=(), **parts):
        return Configuration(
            class_string='Part', settings={'config': config},
            mutable_settings=dict(mutable or {}),
            mutable_sub_components=list(free)), {'data': 1}, {}


class Other(Part):
    pass


def part(v, **k):
    p = Part()
    p.configure(config=v, **k)
    return p


def isolation(env, case):
    """Nobody can change a configuration by accident."""
    git(env)
    v = env.reals('v', 6)
    settings = {'a': v[0], 'n': [v[1], {'d': v[2]}]}
    mutable, check = {'m': [v[3]], 'k': v[4]}, {'c': {'x': v[5]}}
    sub = {'s': build(env, 's_', {'settings': ('q',)})['conf'].dict}
    free = ['s']
    conf = Configuration(class_string='C', settings=settings,
                         mutable_settings=mutable, check_values=check,
                         sub_component_configurations=sub,
                         mutable_sub_components=free,
                         dependent_sub_components=free)

    def same(label, m=None):
        env.check(set(conf.settings) == {'a', 'n'} and set(
            conf.mutable_settings) == {'m', 'k'}, label + ' (keys)')
        env.eq(conf.settings['a'], v[0], label)
        env.eq(conf.settings['n'][0], v[1], label)
        env.eq(conf.settings['n'][1]['d'], v[2], label)
        env.eq(conf.mutable_settings['m'][0], v[3], label)
        env.eq(conf.mutable_settings['k'], v[4] if m is None else m, label)
        env.eq(conf.check_values['c']['x'], v[5], label)
        c = conf.config
        env.check(set(c) == {'a', 'n', 'm', 'k'}, label + ' (config)')
        env.eq(c['a'], v[0], label + ' (config)')
        env.eq(c['n'][1]['d'], v[2], label + ' (config)')
        env.eq(c['m'][0], v[3], label + ' (config)')
        env.eq(c['k'], v[4] if m is None else m, label + ' (config)')
        env.check(conf.class_string == 'C' and list(
            conf.mutable_sub_components) == ['s'] and list(
            conf.dependent_sub_components) == ['s'] and set(
            conf.sub_component_configurations) == {'s'}, label + ' (subs)')
        env.check(set(conf.sub_component_configurations['s'][
            'settings']) == {'q'}, label + ' (subs)')

    same('as given')
    settings['a'] = settings['n'][0] = settings['n'][1]['d'] = 7.
    mutable['m'][0] = mutable['k'] = check['c']['x'] = 7.
    sub['s']['settings']['q2'] = 1.
    sub['t'] = {}
    free.append('t')
    same('after changing the arguments')
    for get in ('settings', 'mutable_settings', 'check_values', 'dict',
                'config', 'sub_component_configurations'):
        d = getattr(conf, get)
        spoil(d)
        same('after changing ' + get)
    w = env.real('w')
    conf.update_mutable_settings({'k': w})
    same('after an update', w)
    env.raises(KeyError, lambda: conf.update_mutable_settings(
        {'k': 3., 'unknown': 1.}), 'unknown mutable setting')
    same('after a refused update', w)
    env.raises(KeyError, lambda: conf.update_mutable_settings({'a': 1.}),
               'settings are not mutable')
    same('after a refused update', w)
    new = {'m': [v[3]]}
    conf.update_mutable_settings(new)
    new['m'][0] = 7.
    same('after changing the update', w)
    # the configuration of a sub component is a record of its own
    p = Part()
    p.configure(config=v[0])
    p._configuration = Configuration(class_string='P', settings={},
                                     mutable_settings={'m': v[1]})
    holder = Configuration(class_string='H', settings={})
    for f in (holder.add_sub_components, holder.replace_sub_components):
        p.configuration.update_mutable_settings({'m': v[1]})
        f({'p': p})
        p.configuration.update_mutable_settings({'m': w})
        env.eq(holder.sub_component_configurations['p'][
            'mutable_settings']['m'], v[1], 'record of a sub component')
    env.raises(ValueError, lambda: Configuration(
        class_string='C', settings={'a': v[0]}, mutable_settings={
            'a': v[0]}), 'keys defined twice')
    env.raises(KeyError, lambda: Configuration(
        class_string='C', settings={}, dependent_sub_components=['x']),
        'unknown dependent sub component')


def spoil(d):
    for k in list(d):
        if isinstance(d[k], dict):
            spoil(d[k])
            d[k]['new'] = 1
        elif isinstance(d[k], list):
            for i in range(len(d[k])):
                if isinstance(d[k][i], dict):
                    spoil(d[k][i])
                else:
                    d[k][i] = 'x'
            d[k].append('y')
        else:
            d[k] = 9.


def subs(env, case):
    """Sub components are added and replaced with their configuration."""
    git(env)
    v = env.reals('v', 3)
    conf = Configuration(class_string='C', settings={})
    a, b, raw = part(v[0]), part(v[1]), Part()

    def value(name):
        return conf.sub_component_configurations[name]['settings']['config']

    def refused(exc, f, label):
        before = sorted(conf.sub_component_configurations)
        env.raises(exc, f, label)
        env.check(sorted(conf.sub_component_configurations) == before,
                  label + ' changes nothing')
    conf.add_sub_components({'a': a})
    env.eq(value('a'), v[0], 'configuration of a sub component')
    refused(KeyError, lambda: conf.add_sub_components({'a': b}),
            'existing sub component')
    refused(TypeError, lambda: conf.add_sub_components({'b': 3}),
            'no component')
    refused(ValueError, lambda: conf.add_sub_components({'b': raw}),
            'sub component that is not configured')
    refused(KeyError, lambda: conf.replace_sub_components({'b': b}),
            'unknown sub component')
    refused(TypeError, lambda: conf.replace_sub_components({'a': 3}),
            'no component')
    refused(ValueError, lambda: conf.replace_sub_components({'a': raw}),
            'sub component that is not configured')
    env.eq(value('a'), v[0], 'configuration of a sub component')
    conf.replace_sub_components({'a': b})
    env.eq(value('a'), v[1], 'configuration of a new sub component')
    refused(KeyError, lambda: conf.add_dependent_sub_components(['x']),
            'unknown dependent sub component')
    refused(KeyError, lambda: conf.add_mutable_sub_components(['x']),
            'unknown mutable sub component')
    env.check(list(conf.dependent_sub_components) == [] and list(
        conf.mutable_sub_components) == [], 'refused names')
    conf.add_dependent_sub_components(['a'])
    conf.add_mutable_sub_components(['a'])
    env.check(list(conf.dependent_sub_components) == ['a'] and list(
        conf.mutable_sub_components) == ['a'], 'names')
    other = Configuration(class_string='C', settings={},
                          sub_component_configurations=conf.dict[
                              'sub_component_configurations'])
    other.replace_sub_components({'a': part(v[2])})
    env.check(conf.is_compatible(other), 'mutable sub component')
    env.check(other.is_compatible(conf) is bool(v[1] == v[2]),
              'other sub component')


PLAN = {}


class Kept(BaseComponent):
    """Keeps values that may differ from those it is given."""

    def _configure(self, **kwargs):
        return Configuration(class_string='Kept', settings=dict(
            PLAN['keep'])), PLAN['data'], PLAN['subs']


def configure(env, case):
    """Configuring collects sub components and checks the settings."""
    git(env)
    v, w = env.real('v'), env.real('w')
    kind = case['kind']
    if kind == 'parts':
        a, b, c, d, e = [part(x) for x in env.reals('p', 5)]
        p = Part()
        p.configure(config=v, x=a, several=[b, c], t=(d,), named={'y': e})
        env.check(p.is_configured and p.data == {'data': 1}, 'configured')
        got = p.configuration.sub_component_configurations
        env.check(set(got) == {'x', 'several_0000', 'several_0001',
                               't_0000', 'y'}, 'names of sub components')
        for k, q in (('x', a), ('several_0000', b), ('several_0001', c),
                     ('t_0000', d), ('y', e)):
            env.eq(got[k]['settings']['config'],
                   q.configuration.config['config'],
                   'configuration of ' + k)
        env.eq(p.configuration.config['config'], v, 'setting')
        env.raises(ValueError, lambda: p.configure(config=v),
                   'configured twice')
        q = Part()
        q.configure(config=w, x=a, several=[b, c], t=(d,), named={'y': e})
        env.check(p.is_compatible(q) is bool(v == w), 'compatibility')
        o = Other()
        o.configure(config=v, x=a, several=[b, c], t=(d,), named={'y': e})
        env.check(not p.is_compatible(o), 'other class')
        return
    if kind == 'raw':
        for k in ({'x': Part()}, {'x': [part(v), Part()]},
                  {'x': {'a': part(v), 'b': Part()}}, {'x': (Part(),)}):
            p = Part()
            env.raises(ValueError, lambda: p.configure(config=v, **k),
                       'sub component that is not configured')
            env.check(not p.is_configured, 'not configured')
        p = Part()
        p.stray = 3
        env.raises(ValueError, lambda: p.configure(config=v),
                   'stray attribute')
        env.check(not p.is_configured, 'not configured')
        return
    k = Kept()
    PLAN.update(data={'d': 1}, subs={}, keep={'a': w, 'n': [v, w]})
    args = {'a': v, 'n': [v, w]}
    if kind == 'data':
        PLAN['data'] = None if env.choose('none', 0, 1) else [1]
        args['a'] = w
        if PLAN['data'] is None:
            k.configure(**args)
            env.check(k.is_configured and k.data == {}, 'no data')
        else:
            env.raises(TypeError, lambda: k.configure(**args), 'wrong data')
            env.check(not k.is_configured, 'not configured')
    elif kind == 'subs':
        args['a'] = w
        n = env.choose('kind', 0, 2)
        PLAN['subs'] = [None, [1], {'z': part(v)}][n]
        if n == 0:
            k.configure(**args)
            env.check(k.is_configured and k.sub_components == {},
                      'no sub components')
        else:
            env.raises((TypeError, KeyError), lambda: k.configure(**args),
                       'wrong sub components')
            env.check(not k.is_configured, 'not configured')
    elif kind == 'missing':
        args['a'] = w
        args['z'] = v
        env.raises(ValueError, lambda: k.configure(**args),
                   'argument that is not in the configuration')
        env.check(not k.is_configured, 'not configured')
    elif kind == 'nested':
        # only an entry of a list or dictionary differs
        n = env.choose('where', 0, 3)
        PLAN['keep'] = {'a': 'x', 'n': [v, {'d': v}], 'e': {'f': [v]}}
        args = {'a': 'x', 'n': [v, {'d': v}], 'e': {'f': [v]}}
        if n == 0:
            args['n'][0] = w
        elif n == 1:
            args['n'][1]['d'] = w
        elif n == 2:
            args['e']['f'][0] = w
        else:
            args['e']['f'].append(w)
        if n < 3 and bool(v == w):
            k.configure(**args)
            env.check(k.is_configured, 'configured')
            env.check(True, 'configured')
        else:
            env.raises(ValueError, lambda: k.configure(**args),
                       'argument that differs from the configuration')
            env.check(not k.is_configured, 'not configured')
    elif bool(v == w):
        k.configure(**args)
        env.check(k.is_configured, 'configured')
        env.check(True, 'configured')
    else:
        env.raises(ValueError, lambda: k.configure(**args),
                   'argument that differs from the configuration')
        env.check(not k.is_configured, 'not configured')


class Piece(object):
    """A handler, transformation or model with a configuration."""

    def __init__(self, conf, **kw):
        self.configuration = conf
        self.__dict__.update(kw)


def node(name, subs, **settings):
    return Configuration(
        class_string=name, settings=settings,
        sub_component_configurations={k: v.dict for k, v in subs.items()})


def ensemble(env, case):
    """Models of an ensemble agree in parameters, transformation, handler."""
    git(env)
    env.patch_np(base)
    n = case['models']
    h = [env.real('handler')] + [
        env.real('handler%d' % i) if 'handler' in case['vary']
        else None for i in range(n)]
    h = [h[0]] + [h[0] if v is None else v for v in h[1:]]
    t = [env.real('setting%d' % i) for i in range(
        n if 'trafo' in case['vary'] else 1)] * n
    names = [['a', 'b'], ['b', 'a'], ['a', 'b', 'c']]
    models, ok, first = [], True, None
    for i in range(n):
        k = 'x' if 'keys' not in case['vary'] else ['x', 'y'][
            env.choose('key%d' % i, 0, 1)]
        if i and 'data' not in case['vary']:
            data = dict(models[0].data_trafo.data)
        else:
            data = {'norm': env.real('norm%d' % i), 'x_mean': env.array(
                'mean%d' % i, (2,))}
        data.pop('y', None)
        if k == 'y':
            data[k] = 1.
        ps = names[env.choose('names%d' % i, 0, 2)
                   if 'names' in case['vary'] else 0]
        hc = node('Handler', {}, a=h[i + 1])
        tc = node('Trafo', {'data_handler': hc}, t=t[i])
        models.append(Piece(node('Model', {'data_trafo': tc}, i=i),
                           parameter_names=ps, data_trafo=Piece(
                               tc, data=data)))
        if not bool(h[i + 1] == h[0]):
            ok = False
        if first is None:
            first = ps, t[i], data
        if ps != first[0] or set(data) != set(first[2]):
            ok = False
        elif not bool(t[i] == first[1]) or not all(
                bool(np.asarray(data[q]).reshape(-1)[j]
                     == np.asarray(first[2][q]).reshape(-1)[j])
                for q in data for j in range(np.asarray(data[q]).size)):
            ok = False
    man = base.BaseModelManager()
    handler = Piece(node('Handler', {}, a=h[0]))

    def make():
        return man._configure(config={'c': 1}, data_handler=handler,
                              models=models)
    if ok:
        conf, data, sub = make()
        env.check([sub['models_%04d' % i] for i in range(n)] == models and
                  sub['data_handler'] is handler and len(sub) == n + 1,
                  'models of an ensemble')
    else:
        env.raises(ValueError, make, 'models that differ')


C = 'egenerator.manager.component.'
SUB = {'settings': ('q',), 'mutable': ('u',)}
DEEP = {'settings': ('q',), 'subs': {'t': {'settings': ('r',)}}}
CASES = [
    dict(settings=('a', 'b'), check=('c',)),
    dict(settings=('a',), nested=True, vary='class'),
    dict(settings=('a',), mutable=('m', 'k'), vary='keys'),
    dict(mutable=('m',), check=('c', 'd')),
    dict(settings=('a',), subs={'s': SUB, 't': SUB}),
    dict(subs={'s': DEEP, 't': DEEP}),
    dict(subs={'s': DEEP, 't': SUB}, free=('s',)),
    dict(subs={'s': SUB, 't': dict(DEEP, free=('t',))}, vary='subs'),
    dict(subs={'s': dict(SUB, vary='class'), 't': dict(
        check=('c',), nested=True)}),
    dict(subs={'s': SUB}, free=('s',), vary='subs'),
    dict(check=('c', 'd'), vary='missing'),
    dict(settings=('a',), check=('c',), vary='missing'),
    dict(subs={'s': dict(settings=('a',), check=('c',), vary='missing')}),
]
MORE = [dict(settings=('a', 'b', 'c'), check=('c', 'd'), nested=True,
             mutable=('m',), vary='class'),
        dict(subs={'s': dict(subs={'t': DEEP}), 't': SUB},
             settings=('a',), vary='subs'),
        dict(subs={'s': dict(DEEP, free=('t',)), 't': SUB, 'u': SUB},
             free=('u',), vary='keys')]
HARNESSES = [
    Harness('compat', compat, CASES, [C + 'Configuration.is_compatible'],
            'up to 3 sub components, 3 levels, every value',
            thorough_cases=CASES + MORE, max_paths=20000),
    Harness('isolation', isolation, [{}], [
        C + 'Configuration.__init__',
        C + 'Configuration.update_mutable_settings',
        C + 'Configuration._combine_settings'], 'nested settings'),
    Harness('subs', subs, [{}], [
        C + 'Configuration.' + k for k in (
            'add_sub_components', 'replace_sub_components',
            'add_dependent_sub_components', 'add_mutable_sub_components')],
        '1 sub component'),
    Harness('configure', configure, [dict(kind=k) for k in (
        'parts', 'raw', 'data', 'subs', 'missing', 'differs', 'nested')], [
        C + 'BaseComponent.configure', C + 'BaseComponent.is_compatible'],
        'up to 5 sub components'),
    Harness('ensemble', ensemble, [dict(models=m, vary=v) for m, v in (
        (1, ['handler']), (3, ['handler']), (3, ['trafo']), (3, ['names']),
        (3, ['keys']), (2, ['data']), (3, []), (2, ['names', 'handler']))], [
            'egenerator.manager.base.BaseModelManager.' + k for k in (
                '_configure', '_check_model_ensemble_compatibility',
                '_check_sub_component_compatibility')],
        'up to 3 models, every value of settings and transformations')]
ASSUMPTIONS = ['the state of the git repository is a constant']
