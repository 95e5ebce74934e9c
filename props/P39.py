"""Managers, models and losses are built from their own settings."""
import os
import types
from copy import deepcopy
import click
from symx.runner import Harness
from egenerator import misc, train_model, create_trafo_model
from egenerator import export_manager, reconstruct_test_data
from egenerator.settings import setup_manager
from egenerator.utils import build_components as bc
from egenerator.utils import configurator as cf


class Registry(object):
    """Classes that record how their objects are configured or loaded."""

    def __init__(self):
        self.objects = []

    def load_class(self, path):
        reg = self

        class Fake(object):
            def __init__(self):
                self.path, self.done, self.args = path, None, None
                reg.objects.append(self)

            def configure(self, *a, **k):
                assert self.done is None and not a, 'configured twice'
                self.done, self.args = 'configure', k

            def load(self, where, **k):
                assert self.done is None, 'loaded twice'
                self.done, self.args = where, k
                self.models = ['model of ' + str(where)]
                self.data_handler = ('handler', where)
                self.data_trafo = ('trafo', where)
        return Fake


def trafo_class(reg):
    return lambda: reg.load_class('trafo')()


def model(env, case):
    """Bases are loaded or built as configured, never against the settings."""
    reg = Registry()
    env.patch(bc, 'misc', reg)
    env.patch(bc, 'DataTransformer', trafo_class(reg))
    allow = bool(env.choose('allow', 0, 1))
    n = case['n']
    bases, want = {}, {}
    bad = False
    for i in range(n):
        s = {'model_class': 'base%d' % i, 'config': {
            'v': env.real('v%d' % i)}}
        k = env.choose('kind%d' % i, 0, 3)
        if k == 0:
            s['load_dir'] = '/dir%d' % i
        else:
            if k == 1:
                s['load_dir'] = None
            if k == 3:
                s['data_trafo_settings'] = {'model_dir': '/trafo%d' % i}
            bad = bad or not allow
        bases['b%d' % i], want['b%d' % i] = s, k
    conf = {'model_settings': {'model_class': 'model', 'config': {
        'v': env.real('v')}}}
    if n or case.get('empty'):
        conf['model_settings']['multi_source_bases'] = bases
    before = deepcopy(conf)
    if bad:
        env.raises(ValueError, lambda: bc.build_model(
            conf, 'trafo', allow_rebuild_base_sources=allow),
            'models are not rebuilt')
        return
    m = bc.build_model(conf, 'trafo', allow_rebuild_base_sources=allow)
    env.check(conf == before, 'the configuration is left alone')
    env.check(m.path == 'model' and m.done == 'configure' and
              m.args['data_trafo'] == 'trafo' and m.args['config'] ==
              before['model_settings']['config'], 'model')
    got = m.args.get('base_sources') or {}
    env.check(sorted(got) == sorted(bases), 'bases')
    for i, k in enumerate(sorted(bases)):
        b, kind = got[k], want[k]
        env.check(b.path == 'base%d' % i, 'class of a base')
        if kind == 0:
            env.check(b.done == '/dir%d' % i, 'loaded base')
            continue
        env.check(b.done == 'configure' and b.args['config'] ==
                  before['model_settings']['multi_source_bases'][k][
                      'config'], 'configured base')
        t = b.args['data_trafo']
        if kind == 3:
            env.check(t.path == 'trafo' and t.done == '/trafo%d' % i,
                      'transformation of a base')
        else:
            env.check(t == 'trafo', 'transformation of a base')


def loss(env, case):
    reg = Registry()
    env.patch(bc, 'misc', reg)
    env.patch(bc, 'MultiLossModule', reg.load_class('multi'))
    n = case['n']
    vals = env.reals('v', max(n, 1))
    s = [{'loss_module': 'loss%d' % i, 'config': {'v': v}}
         for i, v in enumerate(vals)]
    m = bc.build_loss_module({'loss_module_settings': s if n else s[0]})
    if n:
        env.check(m.path == 'multi' and m.done == 'configure', 'multi loss')
        parts = m.args['loss_modules']
    else:
        parts = [m]
    env.check(len(parts) == max(n, 1), 'number of losses')
    for i, p in enumerate(parts):
        env.check(p.path == 'loss%d' % i and p.done == 'configure',
                  'class of a loss')
        env.eq(p.args['config']['v'], vals[i], 'settings of a loss')


def manager(env, case):
    reg = Registry()
    env.patch(bc, 'misc', reg)
    env.patch(bc, 'DataTransformer', trafo_class(reg))
    flags = [bool(env.choose(k, 0, 1)) for k in (
        'restore', 'handler', 'trafo', 'models')]
    restore, h, t, m = flags
    built = []

    def build_model(config, data_transformer, **k):
        built.append((config, data_transformer, k))
        return 'built'
    env.patch(bc, 'build_model', build_model)
    env.patch(bc, 'build_data_handler', lambda config: ('built', config))
    v = env.real('v')
    conf = {'model_manager_settings': {'model_manager_class': 'man',
                                       'config': {'manager_dir': '/man',
                                                  'v': v}},
            'data_trafo_settings': {'model_dir': '/trafo'}}
    subs = {'data_handler': {}}
    kw = {}
    allow = bool(env.choose('allow', 0, 1))
    # the manager hands on what it has been configured with
    load = reg.load_class

    def load_class(path):
        cls = load(path)
        old = cls.configure

        def configure(self, **k):
            old(self, **k)
            self.models, self.data_handler = k['models'], k['data_handler']
            self.data_trafo = 'trafo of the models'
        cls.configure = configure
        return cls
    env.patch(reg, 'load_class', load_class)
    out = bc.build_manager(
        conf, restore, data_handler='h' if h else None,
        data_transformer='t' if t else None, models=['m'] if m else None,
        modified_sub_components=subs, allow_rebuild_base_sources=allow, **kw)
    man = out[0]
    env.check(man.path == 'man' and tuple(out[1:]) == (
        man.models, man.data_handler, man.data_trafo), 'components')
    if restore:
        env.check(man.done == '/man' and man.args[
            'modified_sub_components'] is subs and not built,
            'restored manager')
        return
    env.check(man.done == 'configure', 'configured manager')
    env.eq(man.args['config']['v'], v, 'settings of the manager')
    env.check(man.args['data_handler'] == ('h' if h else ('built', conf)),
              'data handler')
    env.check(list(man.args['models']) == (['m'] if m else ['built']),
              'models')
    if not m:
        c, d, k = built[0]
        env.check(c is conf and bool(k.get(
            'allow_rebuild_base_sources', False)) == allow, 'model')
        if t:
            env.check(d == 't', 'transformation')
        else:
            env.check(d.path == 'trafo' and d.done == '/trafo',
                      'transformation')


def configurator(env, case):
    """An ensemble of all directories with the updated settings."""
    reg = Registry()
    env.patch(cf, 'misc', reg)
    env.patch(cf, 'SeedLoaderMiscModule', reg.load_class('seeds'))
    ignore = types.SimpleNamespace
    env.patch(cf, 'tf', ignore(random=ignore(set_seed=lambda s: None),
                               config=ignore(
        experimental=ignore(list_physical_devices=lambda k: []),
        threading=ignore(
            set_intra_op_parallelism_threads=lambda n: None,
            set_inter_op_parallelism_threads=lambda n: None))))
    dirs = ['/m%d' % i for i in range(case['n'])]
    v = {d: env.real('v' + d) for d in dirs + ['/reco']}

    def config(d):
        return {
            'v': v[d], 'loss_module_settings': 'loss of ' + d,
            'data_handler_settings': {
                'label_module': 'lab.Label', 'label_settings': {
                    'key': 'old', 'v': v[d]},
                'data_module': 'dat.Data', 'data_settings': {
                    'key': 'old', 'v': v[d]}},
            'reconstruction_settings': {
                'seed': 'seed of ' + d, 'seed_parameter_names': ['a', d],
                'seed_float_precision': 'float32', 'seed_missing_value': v[d],
                'seed_missing_value_dict': {'a': v[d]}},
            'model_manager_settings': {'config': {'manager_dir': 'old'}}}
    asked, built = [], []

    class Setup(object):
        def __init__(self, files):
            assert len(files) == 1
            asked.append(files[0])

        def get_config(self):
            d, name = asked[-1].rsplit('/', 1)
            assert name == 'reco_config.yaml'
            return config(d)

    def build_manager(conf, restore, modified_sub_components={}, **k):
        i = len(built)
        built.append((conf, restore, modified_sub_components, k))
        if restore:
            d = conf['model_manager_settings']['config']['manager_dir']
            man = ignore(models=['%s_%d' % (d, j) for j in range(
                case['models'][i])])
            return man, man.models, ('h', d), ('t', d)
        man = ignore(models=k['models'])
        return man, man.models, k['data_handler'], k['data_transformer']
    env.patch(cf, 'SetupManager', Setup)
    env.patch(cf, 'build_manager', build_manager)
    env.patch(cf, 'build_loss_module', lambda c: ('loss', c))
    labels = bool(env.choose('labels', 0, 1))
    upd = [bool(env.choose('update%d' % i, 0, 1)) for i in range(3)]
    new = env.real('new')
    seeds = [['x_parameters'], ['s1', 's2']][env.choose('seeds', 0, 1)]
    kw = {}
    if upd[0]:
        kw['misc_setting_updates'] = {'seed_names': seeds}
    if upd[1]:
        kw['label_setting_updates'] = {'key': new}
    if upd[2]:
        kw['data_setting_updates'] = {'key': new, 'more': new}
    reco = bool(env.choose('reco', 0, 1))
    main = '/reco' if reco else dirs[0]
    arg = dirs[0] if len(dirs) == 1 and case.get('str') else dirs
    c = cf.ManagerConfigurator(arg, reco_config_dir='/reco' if reco else
                               None, load_labels=labels, **kw)
    # models
    env.check(len(built) == len(dirs) + 1, 'managers')
    for d, (conf, restore, subs, k) in zip(dirs, built):
        env.check(restore and conf['model_manager_settings']['config'][
            'manager_dir'] == d, 'directory of a manager')
        env.eq(conf['v'], v[d], 'settings of a manager')
        env.check(not k.get('allow_rebuild_base_sources', False),
                  'models are not rebuilt')
        sub = dict(subs.get('data_handler', {}))
        env.check(set(subs) <= {'data_handler'}, 'replaced components')
        s = sub.pop('misc_module', None)
        if upd[0] and seeds != ['x_parameters']:
            a = s.args
            env.check(s.path == 'seeds' and list(a['seed_names']) == seeds
                      and list(a['seed_parameter_names']) == ['a', main] and
                      a['float_precision'] == 'float32', 'seeds')
            env.eq(a['missing_value'], v[main], 'missing values')
            env.eq(a['missing_value_dict']['a'], v[main], 'missing values')
        else:
            env.check(s is None, 'seeds')
        s = sub.pop('label_module', None)
        if not labels:
            env.check(s.path.endswith('labels.dummy.DummyLabelModule') and
                      s.args == {'config_data': None}, 'no labels')
        elif upd[1]:
            env.check(s.path.endswith('labels.lab.Label') and set(
                s.args) == {'config_data', 'key', 'v'}, 'labels')
            env.eq(s.args['key'], new, 'updated setting')
            env.eq(s.args['v'], v[main], 'other settings')
        else:
            env.check(s is None, 'labels')
        s = sub.pop('data_module', None)
        if upd[2]:
            env.check(s.path.endswith('data.dat.Data') and set(s.args) == {
                'config_data', 'key', 'v', 'more'}, 'data')
            env.eq(s.args['key'], new, 'updated setting')
            env.eq(s.args['more'], new, 'updated setting')
            env.eq(s.args['v'], v[main], 'other settings')
        else:
            env.check(s is None, 'data')
        env.check(not sub, 'no other component is replaced')
    # ensemble
    conf, restore, subs, k = built[-1]
    want = ['%s_%d' % (d, j) for d, m in zip(dirs, case['models'])
            for j in range(m)]
    env.check(not restore and list(k['models']) == want and list(
        c.manager.models) == want, 'all models in order')
    env.check(k['data_handler'][1] in dirs and k['data_transformer'][
        1] in dirs, 'components of the ensemble')
    env.eq(conf['v'], v[main], 'settings of the ensemble')
    env.check(c.loss_module[0] == 'loss' and c.loss_module[1][
        'loss_module_settings'] == 'loss of ' + main, 'loss')
    env.eq(c.config['v'], v[main], 'configuration')


class Abort(Exception):
    pass


class Scripts(object):
    """Stand-ins for the surroundings of the command line scripts."""

    def __init__(self, env, mod, reg, exists, configs):
        self.events, self.reg, self.env = [], reg, env
        self.built = []
        ev, ns = self.events, types.SimpleNamespace

        def there(path):
            return exists(str(path))
        path = ns(**{k: getattr(os.path, k) for k in dir(os.path)
                     if not k.startswith('__')})
        path.exists = path.isdir = path.isfile = path.lexists = there
        self.patch(mod, None, 'os', ns(
            path=path, makedirs=lambda *a, **k: None, sep=os.sep,
            getcwd=os.getcwd))

        def remove(p, *a, **k):
            ev.append(('delete', str(p)))
        copy = (lambda a, b, **k: ev.append(('copy', str(a), str(b))))
        self.patch(mod, None, 'shutil', ns(
            rmtree=remove, copy=copy, copy2=copy, copyfile=copy))

        def confirm(*a, abort=False, **k):
            self.yes = bool(env.choose('confirm', 0, 1))
            ev.append(('confirm',))
            if abort and not self.yes:
                raise Abort
            return self.yes
        env.patch(click, 'confirm', confirm)
        env.patch(misc, 'load_class', reg.load_class)

        class Setup(object):
            def __init__(self, files):
                self.files = list(files)

            def get_config(self):
                ev.append(('read', self.files))
                return configs(self.files)
        self.patch(mod, setup_manager, 'SetupManager', Setup)
        self.patch(mod, bc, 'build_loss_module', lambda config: (
            'loss', config))
        self.patch(mod, bc, 'build_manager', self.build_manager)

    def patch(self, mod, origin, name, new):
        if origin is not None:
            self.env.patch(origin, name, new)
        if hasattr(mod, name):
            self.env.patch(mod, name, new)

    def build_manager(self, config, restore, modified_sub_components={},
                      **k):
        ns, ev = types.SimpleNamespace, self.events
        i = len(self.built)
        ev.append(('build',))
        self.built.append((config, restore, modified_sub_components, k))
        models = k['models'] if k.get('models') is not None else [
            'm%d_%d' % (i, j) for j in range(i % 2 + 1)]
        man = ns(models=models)
        for name in ('train', 'reconstruct_testdata', 'save'):
            setattr(man, name, lambda *a, _n=name, **k: ev.append(
                (_n, a, k)))
        h = ns(i=i, kill=lambda: ev.append(('kill', i)))
        return (man, models, k.get('data_handler') or h,
                k.get('data_transformer') or ('trafo', i))

    def of(self, *kinds):
        return [e for e in self.events if e[0] in kinds]


def train_script(env, case):
    """Training restores or replaces a manager only as asked."""
    reg = Registry()
    out = '/verif_none/manager'
    there = bool(env.choose('there', 0, 1))
    restore = bool(env.choose('restore', 0, 1))
    v, n = env.real('v'), env.real('n')
    kind = env.choose('evaluation', 0, 2)

    def config(files):
        env.check(files == ['a.yaml', 'b.yaml'], 'all files')
        c = {'v': v, 'training_settings': {'num_training_iterations': n},
             'model_manager_settings': {
                 'restore_model': restore, 'config': {'manager_dir': out}}}
        if kind:
            c['evaluation_module_settings'] = {
                'evaluation_module': 'eval' if kind == 2 else None,
                'config': {'v': v}}
        return c
    s = Scripts(env, train_model, reg, lambda p: there, config)
    try:
        train_model.main.callback(config_files=('a.yaml', 'b.yaml'))
        failed = False
    except (ValueError, Abort, click.exceptions.Abort):
        failed = True
    ask = there and not restore
    env.check(len(s.of('confirm')) == ask, 'asks before it deletes')
    if ask and not s.yes:
        env.check(failed and not s.of('delete', 'build', 'train'),
                  'nothing is deleted')
        return
    env.check(not failed, 'runs')
    kinds = [e[0] for e in s.of('confirm', 'delete', 'build', 'train',
                                'kill')]
    env.check(kinds == ['confirm', 'delete'] * ask + [
        'build', 'train', 'kill'], 'order')
    if ask:
        env.check(s.of('delete')[0][1] == out, 'deleted directory')
    conf, rest, subs, k = s.built[0]
    env.check(rest == (restore and there), 'restored')
    env.check(not subs and k.get('models') is None, 'components')
    env.eq(conf['v'], v, 'settings')
    a, k = s.of('train')[0][1:]
    a = dict(zip(('config', 'loss_module', 'num_training_iterations',
                  'evaluation_module'), a), **k)
    env.eq(a['config']['v'], v, 'training settings')
    env.eq(a['loss_module'][1]['v'], v, 'loss')
    env.eq(a['num_training_iterations'], n, 'iterations')
    e = a.get('evaluation_module')
    if kind == 2:
        env.check(e.path == 'eval' and e.done == 'configure' and list(
            e.args) == ['config'], 'evaluation')
        env.eq(e.args['config']['v'], v, 'evaluation')
    else:
        env.check(e is None, 'no evaluation')


def trafo_script(env, case):
    """The transformation is built and saved as configured."""
    reg = Registry()
    there = bool(env.choose('there', 0, 1))
    v = env.reals('v', 5)
    out = '/verif_none/trafo'

    def config(files):
        env.check(files == ['a.yaml'], 'all files')
        return {'data_handler_settings': {
                    'data_handler': 'mod.Handler', 'v': v[0]},
                'data_iterator_settings': {'trafo': {'v': v[1]},
                                           'train': {'v': v[4]}},
                'data_trafo_settings': {
                    'model_dir': out, 'num_batches': v[2],
                    'float_precision': 'float32', 'norm_constant': v[3]}}
    s = Scripts(env, create_trafo_model, reg, lambda p: there, config)
    load = reg.load_class

    def load_class(path):
        def obj():
            o = load(path)()
            o.kill = lambda: s.events.append(('kill', o))
            o.save = lambda *a, **k: s.events.append(('save', a, k))
            return o
        return obj
    env.patch(misc, 'load_class', load_class)
    s.patch(create_trafo_model, None, 'DataTransformer',
            lambda: load_class('trafo')())
    try:
        create_trafo_model.main.callback(config_files=('a.yaml',))
        failed = False
    except (ValueError, Abort, click.exceptions.Abort):
        failed = True
    env.check(len(s.of('confirm')) == there, 'asks before it overwrites')
    if there and not s.yes:
        env.check(failed and not s.of('save'), 'nothing is overwritten')
        return
    env.check(not failed, 'runs')
    env.check([e[0] for e in s.of('save', 'kill')] == ['save', 'kill'],
              'order')
    a, k = s.of('save')[0][1:]
    a = dict(zip(('dir_path', 'protected', 'overwrite'), a), **k)
    env.check(a['dir_path'] == out and a['overwrite'], 'saved')
    h, t = reg.objects
    if h.path == 'trafo':
        h, t = t, h
    env.check(h.path == 'egenerator.data.handler.mod.Handler' and
              h.done == t.done == 'configure' and s.of('kill')[0][1] is h,
              'data handler')
    env.eq(h.args['config']['v'], v[0], 'settings of the data handler')
    env.check(t.args['data_handler'] is h and t.args[
        'float_precision'] == 'float32', 'transformation')
    env.eq(t.args['data_iterator_settings']['v'], v[1], 'batches')
    env.eq(t.args['num_batches'], v[2], 'number of batches')
    env.eq(t.args['norm_constant'], v[3], 'norm constant')


def ensemble(env, s, files, reco, v, first=None):
    """All files load one manager each; the last one holds all models."""
    env.check(len(s.built) == len(files) + 1, 'managers')
    for f, (conf, rest, subs, k) in zip(files, s.built):
        env.check(rest and not k.get('allow_rebuild_base_sources', False),
                  'models are restored, never rebuilt')
        env.eq(conf['v'], v[f], 'settings of a manager')
    conf, rest, subs, k = s.built[-1]
    env.check(not rest and list(k['models']) == [
        'm%d_%d' % (i, j) for i in range(len(files))
        for j in range(i % 2 + 1)], 'all models in order')
    env.eq(conf['v'], v[reco], 'settings of the ensemble')
    env.check(k['data_handler'] is not None and
              k['data_transformer'] is not None, 'restored data handler')


def export_script(env, case):
    """The export holds all models and the reconstruction settings."""
    reg = Registry()
    out = '/verif_none/export'
    there = bool(env.choose('there', 0, 1))
    files = ['c%d.yaml' % i for i in range(case['n'])]
    own = bool(env.choose('own', 0, 1))
    reco = 'reco.yaml' if own else files[0]
    v = {f: env.real('v_' + f) for f in files + ['reco.yaml']}

    def config(fs):
        env.check(len(fs) == 1, 'one file per configuration')
        return {'v': v[fs[0]]}
    s = Scripts(env, export_manager, reg, lambda p: there, config)
    try:
        export_manager.main.callback(
            config_files=tuple(files), output_dir=out,
            reco_config_file='reco.yaml' if own else None)
        failed = False
    except (ValueError, Abort, click.exceptions.Abort):
        failed = True
    env.check(len(s.of('confirm')) == there, 'asks before it deletes')
    if there and not s.yes:
        env.check(failed and not s.of('delete', 'save', 'copy'),
                  'nothing is deleted')
        return
    env.check(not failed, 'runs')
    kinds = [e[0] for e in s.of('confirm', 'delete', 'save', 'copy')]
    env.check(kinds == ['confirm', 'delete'] * there + ['save', 'copy'],
              'order')
    if there:
        env.check(s.of('delete')[0][1] == out, 'deleted directory')
    ensemble(env, s, files, reco, v)
    env.check(all(not b[2] for b in s.built), 'no component is replaced')
    a, k = s.of('save')[0][1:]
    env.check((list(a) + list(k.values()))[0] == out, 'saved')
    env.check(s.of('copy')[0][1:] == (reco, out + '/reco_config.yaml'),
              'exported settings')


def reconstruct_script(env, case):
    """All models reconstruct with the seeds and modules asked for."""
    reg = Registry()
    there = bool(env.choose('there', 0, 1))
    restore = bool(env.choose('restore', 0, 1))
    files = ['c%d.yaml' % i for i in range(case['n'])]
    own = bool(env.choose('own', 0, 1))
    reco = 'reco.yaml' if own else files[0]
    v = {f: env.real('v_' + f) for f in files + ['reco.yaml']}
    seed = [['x_parameters'], 'x_parameters', 's1',
            ['s1', 'x_parameters', 's2']][env.choose('seed', 0, 3)]
    names = [n for n in ([seed] if isinstance(seed, str) else seed)
             if n != 'x_parameters']
    mod = [bool(env.choose('mod%d' % i, 0, 1)) for i in range(2)]

    def config(fs):
        env.check(len(fs) == 1, 'one file per configuration')
        f = fs[0]
        r = {'seed': deepcopy(seed), 'seed_parameter_names': ['a', f],
             'seed_float_precision': 'float32', 'seed_missing_value': v[f],
             'seed_missing_value_dict': {'a': v[f]}}
        if mod[0]:
            r['modified_label_module'] = {
                'label_module': 'lab.Label', 'label_settings': {'k': v[f]}}
        if mod[1]:
            r['modified_data_module'] = {
                'data_module': 'dat.Data', 'data_settings': {'k': v[f]}}
        return {'v': v[f], 'reconstruction_settings': r,
                'data_handler_settings': {},
                'model_manager_settings': {
                    'restore_model': restore,
                    'config': {'manager_dir': '/verif_none/manager'}}}
    s = Scripts(env, reconstruct_test_data, reg, lambda p: there, config)
    s.patch(reconstruct_test_data, None, 'SeedLoaderMiscModule',
            lambda: reg.load_class('seeds')())
    try:
        reconstruct_test_data.main.callback(
            config_files=tuple(files),
            reco_config_file='reco.yaml' if own else None)
        failed = False
    except ValueError:
        failed = True
    env.check(failed == (restore and not there), 'needs a saved manager')
    if failed:
        env.check(not s.of('reconstruct_testdata'), 'no reconstruction')
        return
    ensemble(env, s, files, reco, v)
    for conf, rest, subs, k in s.built[:-1]:
        env.check(set(subs) <= {'data_handler'}, 'replaced components')
        sub = dict(subs.get('data_handler', {}))
        m = sub.pop('misc_module', None)
        if names:
            env.check(m.path == 'seeds' and list(m.args[
                'seed_names']) == names and list(m.args[
                    'seed_parameter_names']) == ['a', reco] and m.args[
                        'float_precision'] == 'float32', 'seeds')
            env.eq(m.args['missing_value'], v[reco], 'missing values')
            env.eq(m.args['missing_value_dict']['a'], v[reco],
                   'missing values')
        else:
            env.check(m is None, 'seeds')
        for on, key, path in ((mod[0], 'label_module', 'labels.lab.Label'),
                              (mod[1], 'data_module', 'data.dat.Data')):
            m = sub.pop(key, None)
            if on:
                env.check(m.path == 'egenerator.data.modules.' + path and
                          m.done == 'configure' and m.args['config_data']
                          is None, key)
                env.eq(m.args['k'], v[reco], key)
            else:
                env.check(m is None, key)
        env.check(not sub, 'no other component is replaced')
    env.check([e[0] for e in s.of('reconstruct_testdata', 'delete',
                                  'save')] == ['reconstruct_testdata'],
              'one reconstruction')
    a, k = s.of('reconstruct_testdata')[0][1:]
    a = dict(zip(('config', 'loss_module'), a), **k)
    env.eq(a['config']['v'], v[reco], 'reconstruction settings')
    env.eq(a['loss_module'][1]['v'], v[reco], 'loss')


B = 'egenerator.utils.build_components.'
HARNESSES = [
    Harness('model', model, [dict(n=0), dict(n=0, empty=1), dict(n=2)], [
        B + 'build_model'], 'up to 2 bases', max_paths=20000,
        thorough_cases=[dict(n=3)]),
    Harness('loss', loss, [dict(n=0), dict(n=1), dict(n=3)], [
        B + 'build_loss_module'], 'up to 3 losses'),
    Harness('manager', manager, [{}], [B + 'build_manager'],
            'every combination of given components'),
    Harness('configurator', configurator, [
        dict(n=1, models=[1], str=1), dict(n=3, models=[1, 2, 1])],
        ['egenerator.utils.configurator.ManagerConfigurator'],
        'up to 3 directories and 4 models', max_paths=20000),
    Harness('train_script', train_script, [{}],
            ['egenerator.train_model.main'], 'every answer and setting'),
    Harness('trafo_script', trafo_script, [{}],
            ['egenerator.create_trafo_model.main'], 'every answer'),
    Harness('export_script', export_script, [dict(n=1), dict(n=3)],
            ['egenerator.export_manager.main'], 'up to 3 files'),
    Harness('reconstruct_script', reconstruct_script, [
        dict(n=1), dict(n=3)], ['egenerator.reconstruct_test_data.main'],
        'up to 3 files', max_paths=20000)]
ASSUMPTIONS = ['components, files and TensorFlow settings are stand-ins '
               '(their content: P02, P12, P13)']
