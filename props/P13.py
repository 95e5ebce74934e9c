"""Components: what is saved is what is loaded, and nothing is overwritten
or replaced by accident."""
import types
import numpy as np
from symx.runner import Harness
from props import fx, vfs
from props.P12 import equal, git
from egenerator import misc
from egenerator.manager import component
from egenerator.manager.component import Configuration, BaseComponent
from egenerator.data.tensor import DataTensorList
from egenerator.data.handler.modular import ModuleDataHandler

CALLS = []


class Node(BaseComponent):
    """A component with settings, data and dependent sub components."""

    def _configure(self, config, value, mutable=None, data=None, free=(),
                   subs=None, **parts):
        conf = Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings={'config': config, 'value': value, 'data': 'd'},
            mutable_settings={'mutable': mutable, 'free': list(free)},
            mutable_sub_components=list(free))
        return conf, {'data': data}, dict(subs or {})

    def configure(self, **k):
        # the data is not part of the configuration
        data = k.pop('data', None)
        super(Node, self).configure(**k)
        self._data = {'data': data, 'none': None}

    def _save(self, dir_path, **kwargs):
        CALLS.append(('save', dir_path, kwargs))

    def _load(self, dir_path, **kwargs):
        CALLS.append(('load', dir_path, kwargs))

    def _update_sub_components(self, names):
        CALLS.append(('update', sorted(names)))


class Second(Node):
    pass


def node(env, tag, cls=Node, text=None, **k):
    n = cls()
    n.configure(config=env.real(tag + 'config'), value=[
        env.real(tag + 'value'), {'x': text or tag}], mutable=env.real(
            tag + 'mutable'), data=[env.real(tag + 'data'), None], **k)
    return n


def tree(env, tag, free=()):
    t = node(env, tag + 't_')
    s1 = node(env, tag + 's1_', Second, subs={'t': t})
    s2 = node(env, tag + 's2_')
    root = node(env, tag, subs={'s1': s1, 's2': s2}, free=list(free),
                param=node(env, tag + 'p_'))
    return root


def start(env, crash=None):
    git(env)
    fs = vfs.Files(crash)
    fs.patch(env, component)
    del CALLS[:]
    return fs


def same(env, a, b, label):
    env.check(type(a) is type(b), label + ' (class)')
    env.check(equal_config(env, a.configuration.dict, b.configuration.dict,
                           label), label + ' (configuration)')
    env.check(set(a.data) == set(b.data), label + ' (data)')
    env.eq(a.data['data'][0], b.data['data'][0], label + ' (data)')
    env.check(b.data['data'][1] is None, label + ' (data)')
    env.check(sorted(a.sub_components) == sorted(b.sub_components),
              label + ' (sub components)')
    for k in a.sub_components:
        same(env, a.sub_components[k], b.sub_components[k], label)


def equal_config(env, a, b, label):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all([
            equal_config(env, a[k], b[k], label) for k in sorted(a)])
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all([
            equal_config(env, x, y, label) for x, y in zip(a, b)])
    if isinstance(a, str) or a is None or isinstance(a, bool):
        return a == b
    env.eq(a, b, label + ' (setting)')
    return True


def roundtrip(env, case):
    """A loaded component has the settings, data and sub components of the
    saved one."""
    fs = start(env)
    a = tree(env, 'a_')
    name = ['/s/m', '/s/m.yaml', '/s/x.y/m'][env.choose('name', 0, 2)]
    a.save(name, extra=1)
    env.check(sorted(c[1] for c in CALLS if c[0] == 'save') == sorted(
        name.replace('.yaml', '') + k for k in (
            '', '/s1', '/s1/t', '/s2')), 'components saved')
    env.check(all(c[2] == {'extra': 1} for c in CALLS), 'arguments')
    del CALLS[:]
    if case.get('version'):
        # saved by another version of the package
        for f in fs.files:
            if f.endswith('configuration.yaml'):
                fs.files[f] = dict(fs.files[f],
                                   event_generator_version='0.0.1')
    b = Node()
    b.load(name, extra=2)
    env.check(b.is_configured, 'configured')
    env.check(sorted(c[1] for c in CALLS if c[0] == 'load') == sorted(
        name.replace('.yaml', '') + k for k in (
            '', '/s1', '/s1/t', '/s2')) and all(
        c[2] == {'extra': 2} for c in CALLS), 'components loaded')
    if case.get('version'):
        env.check(b.configuration.dict['event_generator_version']
                  == '0.0.1', 'version the component was saved with')
        env.eq(b.configuration.config['config'],
               a.configuration.config['config'], 'setting')
        return
    same(env, a, b, 'loaded')
    env.check(a.is_compatible(b) and b.is_compatible(a), 'compatible')
    env.raises(ValueError, lambda: b.load(name), 'loaded twice')
    c = Second()
    env.raises(TypeError, lambda: c.load(name), 'other class')
    env.check(not c.is_configured, 'not configured')
    c = Node()
    env.raises((IOError, OSError), lambda: c.load('/s/nothing'),
               'no component')
    c = Node()
    env.raises(ValueError, lambda: c.save('/s/nothing'), 'not configured')
    c.stray = 1
    env.raises(ValueError, lambda: c.load(name), 'stray attribute')
    b.stray = 1
    before = dict(fs.files)
    env.raises(AttributeError, lambda: b.save('/s/other'),
               'stray attribute')
    env.check(set(fs.files) == set(before), 'nothing is written')
    b.save('/s/other', allow_untracked_attributes=True)
    c = Node()
    c.load('/s/other')
    same(env, a, c, 'saved again')


def overwrite(env, case):
    """Existing files are only overwritten if asked for."""
    fs = start(env)
    old, new = tree(env, 'old_'), tree(env, 'new_')
    old.save('/s/m')
    everything = sorted(fs.files)
    keep = [f for i, f in enumerate(everything)
            if case['keep'][i % len(case['keep'])]
            or env.choose('keep%d' % i, 0, 1)]
    fs.files = {f: fs.files[f] for f in keep}
    before = dict(fs.files)
    want = [f for f in everything if f in before]
    try:
        new.save('/s/m')
        done = True
    except (IOError, OSError):
        done = False
    env.check(done == (not want), 'existing files are refused')
    env.check(all(fs.files.get(f) is before[f] for f in before),
              'existing files are untouched')
    new.save('/s/m', overwrite=True)
    c = Node()
    c.load('/s/m')
    same(env, new, c, 'overwritten')


def modified(env, case):
    """Sub components are only replaced by compatible ones, if not mutable."""
    start(env)
    a = tree(env, 'a_', free=case.get('free', ()))
    a.save('/s/m')
    del CALLS[:]
    name = case['name']
    deep = name == 't'
    fresh = node(env, 'n_', Second if case.get('other') else type(
        a.sub_components['s1'].sub_components['t'] if deep
        else a.sub_components[name]), 'a_%s_' % name, **(
            {'subs': {'t': node(env, 'nt_', text='a_t_')}}
            if name == 's1' else {}))
    mod = {'s1': {'t': fresh}} if deep else {name: fresh}
    given = {k: dict(v) if isinstance(v, dict) else v
             for k, v in mod.items()}
    old = a.sub_components['s1'].sub_components['t'] if deep \
        else a.sub_components[name]
    ok = compatible(old, fresh) or name in case.get('free', ())
    b = Node()
    if not ok:
        env.raises(ValueError, lambda: b.load(
            '/s/m', modified_sub_components=mod), 'not compatible')
        env.check(not b.is_configured, 'not configured')
        env.check(True, 'not configured')
        return
    b.load('/s/m', modified_sub_components=mod)
    env.check(b.is_configured and (b.sub_components['s1'].sub_components[
        't'] if deep else b.sub_components[name]) is fresh,
        'replaced sub component')
    conf = b.configuration.sub_component_configurations
    conf = conf['s1']['sub_component_configurations']['t'] if deep \
        else conf[name]
    env.check(equal_config(env, conf, fresh.configuration.dict,
                           'new configuration'), 'new configuration')
    for k in ('s1', 's2'):
        if k != name and not (deep and k == 's1'):
            same(env, a.sub_components[k], b.sub_components[k], 'others')
            env.check(equal_config(
                env, b.configuration.sub_component_configurations[k],
                a.sub_components[k].configuration.dict, 'others'), 'others')
    env.check(('update', ['s1' if deep else name]) in CALLS and (
        not deep or ('update', ['t']) in CALLS), 'update of the component')
    env.check(set(mod) == set(given) and all(
        set(mod[k]) == set(given[k]) if isinstance(given[k], dict)
        else mod[k] is given[k] for k in given), 'argument is not changed')
    # the same replacement for a second component
    c = Node()
    c.load('/s/m', modified_sub_components=mod)
    env.check((c.sub_components['s1'].sub_components['t'] if deep
               else c.sub_components[name]) is fresh, 'used again')
    for wrong in ({'x': fresh}, {'s2': {'t': fresh}}, {'param': fresh},
                  {'s1': {'x': fresh}}, {'s2': Node()}):
        c = Node()
        env.raises(ValueError, lambda: c.load(
            '/s/m', modified_sub_components=wrong), 'unused or unusable')
        env.check(not c.is_configured, 'not configured')


def several(env, case):
    """All replacements of one load are used and recorded."""
    start(env)
    a = tree(env, 'a_', free=case['free'])
    a.save('/s/m')
    del CALLS[:]
    # s2 fits or is free, s1 and its sub component are replaced in any way
    s2 = node(env, 'n2_', text='a_s2_')
    if case['deep']:
        t = node(env, 'n_', text='a_t_')
        mod, one = {'s1': {'t': t}, 's2': s2}, t
        olds = (a.sub_components['s1'].sub_components['t'],
                a.sub_components['s2'])
    else:
        t = node(env, 'n_', text='a_t_')
        one = node(env, 'n1_', Second, 'a_s1_', subs={'t': t})
        mod = {'s1': one, 's2': s2}
        olds = a.sub_components['s1'], a.sub_components['s2']
    ok = all([n in case['free'] or compatible(o, c) for o, c, n in zip(
        olds, (one, s2), ('t' if case['deep'] else 's1', 's2'))])
    b = Node()
    if not ok:
        env.raises(ValueError, lambda: b.load(
            '/s/m', modified_sub_components=mod), 'not compatible')
        env.check(not b.is_configured, 'not configured')
        return
    b.load('/s/m', modified_sub_components=mod)
    s1 = b.sub_components['s1']
    env.check((s1.sub_components['t'] if case['deep'] else s1) is one and
              b.sub_components['s2'] is s2, 'replaced sub components')
    for k in ('s1', 's2'):
        env.check(equal_config(
            env, b.configuration.sub_component_configurations[k],
            b.sub_components[k].configuration.dict, 'configurations'),
            'configurations')
    env.check(('update', ['s1', 's2']) in CALLS, 'update of the component')
    # the configuration that was saved stays the same otherwise
    for k in ('config', 'mutable'):
        env.eq(b.configuration.config[k], a.configuration.config[k],
               'settings')
    b.save('/s/n')
    c = Node()
    c.load('/s/n')
    same(env, b, c, 'saved again')


def compatible(a, b):
    if type(a) is not type(b):
        return False
    return equal(a.configuration.settings, b.configuration.settings) and \
        sorted(a.sub_components) == sorted(b.sub_components) and all(
            compatible(a.sub_components[k], b.sub_components[k])
            for k in a.sub_components)


class Module(BaseComponent):
    """A module of a data handler with given tensors."""
    def kind(self):
        return [k for k, c in MODULES.items() if c is not Module
                and isinstance(self, c)][:1] or ['data']

    def _configure(self, names, value, config_data=None):
        kind, = self.kind()
        ts = DataTensorList([fx.tensor(n, [None, 2], kind) for n in names])
        conf = Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings={'config_data': config_data, 'names': names},
            mutable_settings={'value': value})
        return conf, {kind + '_tensors': ts}, {}


class LabelModule(Module):
    pass


class LabelModule2(LabelModule):
    pass


class WeightModule(Module):
    pass


class MiscModule(Module):
    pass


class FilterModule(Module):
    def _configure(self, value, config_data=None):
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings={'config_data': config_data},
            mutable_settings={'value': value}), {}, {}


MODULES = {'data': Module, 'label': LabelModule, 'weight': WeightModule,
           'misc': MiscModule, 'filter': FilterModule}
NAMES = {'data': ['x_b', 'x_d'], 'label': ['x_c'], 'weight': [],
         'misc': ['x_a', 'x_e']}


def handler(env, case):
    """A data handler uses the tensors of its (replaced) modules."""
    start(env)
    load = misc.load_class
    base = 'egenerator.data.modules.'

    def load_class(path):
        if path.startswith(base):
            kind = path.split('.')[-1]
            assert path == base + {
                'data': 'data', 'misc': 'misc'}.get(
                    kind, kind + 's') + '.mod.' + kind, path
            return MODULES[kind]
        return load(path)
    env.patch(misc, 'load_class', load_class)
    v = {k: env.real('v_' + k) for k in MODULES}

    def settings(k, names, value):
        return dict({'value': value}, **(
            {} if k == 'filter' else {'names': names}))
    config = {}
    for k in MODULES:
        config[k + '_module'] = 'mod.' + k
        config[k + '_settings'] = settings(k, NAMES.get(k), v[k])

    def check(h, names, values, classes, label):
        want = sorted((n, k) for k in names for n in names[k])
        env.check([(t.name, t.type) for t in h.tensors.list] == want,
                  label + ' (all tensors)')
        for k in names:
            env.check(sorted(getattr(h, k + '_tensors').names) == sorted(
                names[k]), label + ' (tensors of a module)')
        for k in MODULES:
            m = getattr(h, k + '_module')
            env.check(type(m) is classes.get(k, MODULES[k]) and
                      m is h.sub_components[k + '_module'],
                      label + ' (module)')
            c = h.configuration.config['config'][k + '_settings']
            env.eq(c['value'], values[k], label + ' (settings)')
            env.check(k == 'filter' or list(c['names']) == names[k],
                      label + ' (settings)')
            env.eq(m.configuration.config['value'], values[k],
                   label + ' (settings of a module)')
            env.check(str(h.configuration.config['config'][
                k + '_module']).split('.')[-1] in (
                    k, type(m).__name__), label + ' (name of a module)')
            env.check(equal_config(
                env, h.configuration.sub_component_configurations[
                    k + '_module'], m.configuration.dict, label), label)
    h = ModuleDataHandler()
    h.configure(config=config)
    check(h, NAMES, v, {}, 'configured')
    h.save('/s/h')
    g = ModuleDataHandler()
    g.load('/s/h')
    check(g, NAMES, v, {}, 'loaded')
    # replace modules
    names, values, classes, mod = dict(NAMES), dict(v), {}, {}
    for k in case['replace']:
        w = env.real('w_' + k)
        cls = LabelModule2 if case.get('other') and k == 'label' \
            else MODULES[k]
        m = cls()
        if k != 'filter':
            names[k] = {'label': ['y_l', 'a_l'], 'misc': [],
                        'data': NAMES['data'], 'weight': ['x_bb']}[k]
        m.configure(**dict(settings(k, names.get(k), w), config_data=None))
        values[k], classes[k], mod[k + '_module'] = w, cls, m
    g = ModuleDataHandler()
    g.load('/s/h', modified_sub_components=mod)
    check(g, names, values, classes, 'replaced')
    env.check(all(g.sub_components[k] is m for k, m in mod.items()),
              'replaced modules')
    check(h, NAMES, v, {}, 'the other handler')
    g.save('/s/g')
    f = ModuleDataHandler()
    f.load('/s/g')
    check(f, names, values, classes, 'saved again')
    # the data cannot change
    m = Module()
    m.configure(names=['x_other'], value=v['data'], config_data=None)
    f = ModuleDataHandler()
    env.raises(ValueError, lambda: f.load('/s/h', modified_sub_components={
        'data_module': m}), 'other data')


C = 'egenerator.manager.component.BaseComponent.'
M = 'egenerator.data.handler.modular.ModuleDataHandler.'
B = 'a tree of 5 components on 3 levels with arbitrary settings and data'
HARNESSES = [
    Harness('roundtrip', roundtrip, [{}, {'version': 1}],
            [C + 'save', C + 'load'], B),
    Harness('overwrite', overwrite, [dict(keep=k) for k in (
        [0, 0, 0, 0, 1, 1, 1, 1], [1, 1, 1, 1, 0, 0, 0, 0],
        [1, 0, 0, 1, 1, 0, 0, 1])], [C + 'save'], B,
            thorough_cases=[dict(keep=[0])]),
    Harness('modified', modified, [
        dict(name='s2'), dict(name='s2', free=('s2',)), dict(name='s1'),
        dict(name='s1', free=('s1',)), dict(name='t'),
        dict(name='s2', other=1), dict(name='s2', other=1, free=('s2',)),
        dict(name='t', other=1)], [C + 'load'], B),
    Harness('handler', handler, [
        dict(replace=['label']), dict(replace=['label', 'misc'], other=1),
        dict(replace=['weight', 'filter']), dict(replace=['data', 'misc']),
        dict(replace=['data', 'filter', 'label', 'misc', 'weight'])], [
            M + '_update_sub_components', M + '_configure_derived_class',
            M + '_load_modules'], 'five modules with up to 2 tensors'),
    Harness('several', several, [
        dict(free=f, deep=d) for f in ((), ('s1', 's2'), ('s2',))
        for d in (0, 1)], [C + 'load'], B, max_paths=20000)]
ASSUMPTIONS = ['files are kept in memory (stand-ins for os, open, yaml and '
               'pickle), the state of the git repository is a constant']
