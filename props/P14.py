"""Checkpoints: retention, protection and recovery of model weights."""
import types
import numpy as np
import tensorflow as tf
from symx.runner import Harness
from props import vfs
from props.P12 import git, equal
from egenerator import misc
from egenerator.manager import component
from egenerator.manager.base import BaseModelManager
from egenerator.manager.component import Configuration, BaseComponent
from egenerator.model import base
from egenerator.model.base import Model
from egenerator.model.source.base import Source
from egenerator.model.multi_source.base import MultiSource


class Net(Model):
    """A model; its weights are a single (symbolic) number."""

    def _configure_derived_class(self, config):
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {}, {}


class Extra(BaseComponent):
    def _configure(self, config):
        return Configuration(class_string='Extra',
                             settings=dict(config=config)), {}, {}


class Checkpoint(object):
    """Stands in for tf.train.Checkpoint: two files per checkpoint."""
    fs = None

    def __init__(self, step=None, model=None):
        self.parts, self.model = (step, model), model

    def write(self, path):
        fs = self.fs
        v = self.model._untracked_data.get('w')
        for end in ('.data-00000-of-00001', '.index'):
            fs.step(('write', path + end))
            fs.files[fs.norm(path + end)] = ('weights', v)
        return path

    def restore(self, path):
        fs = self.fs
        got = [fs.files[fs.norm(path + e)] for e in (
            '.data-00000-of-00001', '.index')]
        self.model._untracked_data['w'] = got[0][1]

    def save(self, *a, **k):
        raise AssertionError('numbers its files')


class Tf(object):
    train = types.SimpleNamespace(Checkpoint=Checkpoint)

    def __getattr__(self, k):
        return getattr(tf, k)


def start(env):
    git(env)
    fs = vfs.Files()
    fs.dirs.update(['/s', DIR])
    fs.patch(env, component, base)
    env.patch(base, 'tf', Tf())
    env.patch(Checkpoint, 'fs', fs)
    return fs


DIR = '/s/m'


def net(config=1):
    m = Net()
    m.configure(config=config)
    return m


def weights(fs, d):
    """{number: weights} of the checkpoints in a directory."""
    out = {}
    for f, v in fs.files.items():
        if f.startswith(d + '/model_checkpoint_') and f.endswith('.index'):
            n = f[len(d + '/model_checkpoint_'):-len('.index')]
            if not n.isdigit():
                continue
            n = int(n)
            out[n] = fs.files[f[:-6] + '.data-00000-of-00001'][1]
    return out


def loads(env, m, d, number, want, label):
    m._untracked_data['w'] = None
    m.load_weights(d, **({} if number is None else {
        'checkpoint_number': number}))
    env.eq(m._untracked_data['w'], want, label)


def history(env, case):
    """The most recent and all protected checkpoints are kept."""
    fs = start(env)
    d = case.get('dir', DIR)
    fs.dirs.add(d)
    others = {}
    for f in case.get('others', []):
        fs.files[f] = others[f] = ('other', f)
        fs.dirs.add(f.rsplit('/', 1)[0])
    m = net()
    env.check(m.checkpoint.parts[0] is m.step
              and m.checkpoint.parts[1] is m, 'parts of a checkpoint')
    have, unprotected = {}, []
    for i in range(1, case['n'] + 1):
        v = env.real('w%d' % i)
        m._untracked_data['w'] = v
        protected = env.choose('protected%d' % i, 0, 1) == 1
        keep = env.choose('keep%d' % i, 1, 3) if case.get('vary') \
            else case.get('keep', 3)
        kw = {} if 'keep' not in case and not case.get('vary') else {
            'max_keep': keep}
        m.save_weights(d, protected=protected, description='d%d' % i, **kw)
        have[i] = v
        if not protected:
            unprotected.append(i)
            while len(unprotected) > keep:
                del have[unprotected.pop(0)]
        got = weights(fs, d)
        env.check(set(got) == set(have), 'checkpoints that are kept')
        meta = fs.files[d + '/model_checkpoint.yaml']
        env.check(meta['latest_checkpoint'] == i and sorted(
            meta['unprotected_checkpoints']) == unprotected and sorted(
            meta['protected_checkpoints']) == sorted(
            set(have) - set(unprotected)), 'meta data')
        both = dict(meta['unprotected_checkpoints'])
        both.update(meta['protected_checkpoints'])
        env.check(all(both[k]['description'] == 'd%d' % k for k in both),
                  'description')
        other = net() if case.get('fresh') else m
        for k in have:
            loads(env, other, d, k, have[k], 'weights of a checkpoint')
        loads(env, other, d, None, v, 'latest weights')
        for k in range(1, i + 1):
            if k not in have:
                env.raises((KeyError, ValueError, IOError), lambda:
                           other.load_weights(d, checkpoint_number=k),
                           'removed checkpoint')
        env.check(all(fs.files.get(f) == others[f] for f in others),
                  'other files')
    env.raises((IOError, OSError), lambda: net().load_weights('/s/none'),
               'no checkpoints')
    # nothing is overwritten
    del fs.files[d + '/model_checkpoint.yaml']
    before = dict(fs.files)
    if 1 in have:
        env.raises((IOError, OSError), lambda: m.save_weights(d),
                   'existing checkpoint file')
        env.check(fs.files == before, 'existing checkpoint file')


def crash(env, case):
    """After a crash the last or the new weights can be loaded."""
    fs = start(env)
    m = net()
    v, safe = [], []
    keep = case['keep']
    for i in range(case['n']):
        w = env.real('w%d' % i)
        m._untracked_data['w'] = w
        p = env.choose('protected%d' % i, 0, 1) == 1
        m.save_weights(DIR, max_keep=keep, protected=p)
        v.append(w)
        if p:
            safe.append(i + 1)
    w = env.real('new')
    m._untracked_data['w'] = w
    at = env.choose('crash', 1, 12)
    fs.crash, fs.ops = at, 0
    done = False
    try:
        m.save_weights(DIR, max_keep=keep, protected=env.choose(
            'protected', 0, 1) == 1)
        done = True
    except vfs.Crash:
        pass
    fs.crash = None
    m = net()
    got = recover(env, m)
    if v or done:
        env.check(got is not None and (
            env.and_(got == w) if done else env.or_(got == w, got == v[-1])),
            'the last completed or the new weights are loaded')
    else:
        env.check(got is None or env.and_(got == w),
                  'the last completed or the new weights are loaded')
    for k in safe:
        loads(env, m, DIR, k, v[k - 1], 'protected weights')
    # a later save does no harm, even if it is refused
    w2 = env.real('later')
    m._untracked_data['w'] = w2
    try:
        m.save_weights(DIR, max_keep=keep)
        again = True
    except (IOError, OSError, KeyError):
        again = False
    got2 = recover(env, net())
    if again:
        env.check(got2 is not None and env.and_(got2 == w2), 'later weights')
    elif got is None:
        env.check(got2 is None, 'later weights')
    else:
        env.check(got2 is not None and env.and_(got2 == got),
                  'later weights')


def recover(env, m):
    m._untracked_data['w'] = None
    try:
        m.load_weights(DIR)
    except Exception:
        return None
    return m._untracked_data['w']


def full(env, case):
    """Saving and loading a model, its weights and training steps."""
    fs = start(env)
    c, v = env.real('config'), env.real('w')
    m = net(c)
    m._untracked_data['w'] = v
    t1, t2 = env.real('t1'), env.real('t2')
    e = Extra()
    e.configure(config=t1)
    m.save(DIR, description='first', overwrite=True, protected=True,
           new_training_settings={'config': {'lr': t1},
                                  'components': {'extra': e}},
           num_training_steps=None)
    steps = DIR + '/training/training_steps.yaml'
    env.check(fs.files[steps]['latest_step'] == 1 and fs.files[steps][
        'training_steps'][1]['num_training_steps'] == 0, 'first step')
    n1, n2 = env.int('n1', 0, 1000), env.int('n2', 0, 1000)
    later = [env.real('later%d' % k) for k in range(4)]
    m._untracked_data['w'] = later[0]
    m.save_weights(DIR, num_training_steps=n1)
    m._untracked_data['w'] = later[1]
    m.save_weights(DIR, num_training_steps=n2)
    env.eq(fs.files[steps]['training_steps'][1]['num_training_steps'], n2,
           'number of training steps')
    m._untracked_data['w'] = later[2]
    m.save_weights(DIR)
    last = later[2]
    if case.get('again'):
        last = m._untracked_data['w'] = later[3]
        e2 = Extra()
        e2.configure(config=t2)
        m.save(DIR, overwrite=True, new_training_settings={
            'config': {'lr': t2}, 'components': {'extra': e2}})
        env.eq(fs.files[DIR + '/training/step_0002/training_config.yaml'][
            'lr'], t2, 'settings of a step')
        env.eq(fs.files[DIR + '/training/step_0002/extra/configuration.yaml'
                        ]['settings']['config'], t2, 'component of a step')
        m.save_weights(DIR, num_training_steps=n1)
        env.check(fs.files[steps]['latest_step'] == 2, 'second step')
        env.eq(fs.files[steps]['training_steps'][2]['num_training_steps'],
               n1, 'number of training steps')
    env.eq(fs.files[steps]['training_steps'][1]['num_training_steps'], n2,
           'number of training steps')
    env.eq(fs.files[DIR + '/training/step_0001/training_config.yaml']['lr'],
           t1, 'settings of a step')
    env.eq(fs.files[DIR + '/training/step_0001/extra/configuration.yaml'][
        'settings']['config'], t1, 'component of a step')
    env.raises((IOError, OSError), lambda: m.save(DIR), 'no overwrite')
    b = Net()
    b.load(DIR)
    env.check(b.is_configured and b.is_compatible(m), 'loaded model')
    env.eq(b.configuration.config['config'], c, 'setting')
    env.eq(b._untracked_data['w'], last, 'weights')
    b = Net()
    again = bool(case.get('again'))
    b.load(DIR, checkpoint_number=3 + again)
    env.eq(b._untracked_data['w'], later[1 + again], 'weights')
    b = Net()
    b.load(DIR, checkpoint_number=1)
    env.eq(b._untracked_data['w'], v, 'weights')
    env.raises((IOError, OSError), lambda: m.save_weights(
        '/s/m2', num_training_steps=1), 'no training steps')
    # settings of an unknown step are not overwritten
    k = fs.files[steps]['latest_step'] + 1
    fs.dirs.add(DIR + '/training/step_%04d' % k)
    fs.files[DIR + '/training/step_%04d/training_config.yaml' % k] = {
        'lr': t2}
    before = dict(fs.files)
    env.raises((IOError, OSError), lambda: m.save_training_settings(
        DIR, {'config': {'lr': t1}, 'components': {}}), 'existing step')
    env.check(fs.files == before, 'existing step')


class Inner(Net):
    """A model with variables."""

    def _configure_derived_class(self, config):
        self._untracked_data['free'] = tf.Variable([1., 2.], name='free')
        self._untracked_data['fixed'] = tf.Variable(
            [1.] * 3, name='fixed', trainable=False)
        return super(Inner, self)._configure_derived_class(config)


class Outer(Model):
    """A model that contains other models."""

    def _configure_derived_class(self, config, **subs):
        self._untracked_data['own'] = tf.Variable([[1., 2.]], name='own')
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {}, subs


def variables(env, case):
    """Only the model as it was set up is saved."""
    fs = start(env)
    m = Outer() if case['subs'] else Inner()
    subs = {}
    for i in range(case['subs']):
        subs['m%d' % i] = Inner()
        subs['m%d' % i].configure(config=i)
    m.configure(config=1, **subs)
    n = 2 * case['subs'] if case['subs'] else 2
    env.check(m.num_variables[0] == n + 2 * bool(case['subs']),
              'number of free variables')
    v = env.real('w')
    m._untracked_data['w'] = v
    m.save_weights(DIR)
    loads(env, m, DIR, None, v, 'weights')
    where = m if not subs or env.choose('inside', 0, 1) == 0 else subs['m0']
    before = dict(fs.files)
    where._untracked_data['new'] = tf.Variable(
        1., name='new', trainable=env.choose('trainable', 0, 1) == 1)
    env.raises(ValueError, lambda: m.save_weights(DIR), 'changed model')
    env.check(fs.files == before, 'changed model')


def ensemble(env, case):
    """Every model of an ensemble has its own weights."""
    fs = start(env)
    n = case['models']
    man = BaseModelManager()
    models = [net(i) for i in range(n)]
    man._sub_components = dict(
        {'models_%04d' % i: m for i, m in enumerate(models)},
        data_handler=Extra())
    for i in range(n):
        fs.dirs.add(DIR + '/models_%04d' % i)
    w = [[env.real('w%d_%d' % (k, i)) for i in range(n)] for k in range(3)]
    for k in range(3):
        for m, v in zip(models, w[k]):
            m._untracked_data['w'] = v
        man.save_weights(DIR, max_keep=2)
    for number, k in ((None, 2), (3, 2), (2, 1)):
        for m in models:
            m._untracked_data['w'] = None
        man.load_weights(DIR, **({} if number is None else {
            'checkpoint_number': number}))
        for i, m in enumerate(models):
            env.eq(m._untracked_data['w'], w[k][i], 'weights of a model')
    env.raises(KeyError, lambda: man.load_weights(DIR, checkpoint_number=1),
               'removed checkpoint')
    e = Extra()
    e.configure(config=1)
    man.save_training_settings(DIR, {'config': {'a': w[0][0]},
                                     'components': {'e': e}})
    man.save_weights(DIR, num_training_steps=5, protected=True,
                     description='last')
    for i in range(n):
        d = DIR + '/models_%04d' % i
        env.check(fs.files[d + '/training/training_steps.yaml'][
            'training_steps'][1]['num_training_steps'] == 5, 'steps')
        env.eq(fs.files[d + '/training/step_0001/training_config.yaml'][
            'a'], w[0][0], 'settings')
        env.check(sorted(weights(fs, d)) == [2, 3, 4], 'checkpoints')
        meta = fs.files[d + '/model_checkpoint.yaml']
        env.check(sorted(meta['unprotected_checkpoints']) == [2, 3] and
                  sorted(meta['protected_checkpoints']) == [4],
                  'protected checkpoints')
        env.check(meta['protected_checkpoints'][4]['description'] == 'last',
                  'description')
    env.check(man.models == [m for m in models], 'order of the models')


class Part(Source):
    """A source; its weights are a single (symbolic) number."""

    def _build_architecture(self, config, name=None):
        return ['p%d' % i for i in range(config['n'])]


class Trafo(BaseComponent):
    def _configure(self, config):
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {}, {}


class Multi(MultiSource):
    """A superposition of every source."""

    def get_parameters_and_mapping(self, config, base_sources):
        names, sources = [], {}
        for k in sorted(base_sources):
            for i in range(config['n']):
                sources['%s_%d' % (k, i)] = k
                names.append('%s_%d_energy' % (k, i))
        return names, sources


def parts(m):
    """The sources of a model that hold weights, in order."""
    if not isinstance(m, MultiSource):
        return [m]
    return [p for k in sorted(m.sub_components) if k != 'data_trafo'
            for p in parts(m.sub_components[k])]


def build(env, tree, config, trafo, tag='m'):
    if not isinstance(tree, dict):
        p = Part()
        p.configure(config={'n': tree, 'c': config}, data_trafo=trafo,
                    name=tag)
        return p
    m = Multi()
    m.configure(config={'n': 2, 'c': config}, base_sources={
        k: build(env, v, config, trafo, tag + k) for k, v in tree.items()},
        data_trafo=trafo, name=tag)
    return m


def places(m, d):
    if not isinstance(m, MultiSource):
        return [d]
    return [p for k in sorted(m.sub_components) if k != 'data_trafo'
            for p in places(m.sub_components[k], d + '/' + k)]


def multi(env, case):
    """Every source of a multi source keeps its own weights."""
    fs = start(env)
    trafo = Trafo()
    trafo.configure(config=env.real('trafo'))
    c = env.real('config')
    m = build(env, case['tree'], c, trafo)
    ps, ds = parts(m), places(m, DIR)
    n = len(ps)
    count = case.get('saves', 3)
    w = [[env.real('w%d_%d' % (k, i)) for i in range(n)]
         for k in range(count + 1)]

    def put(k):
        for p, v in zip(ps, w[k]):
            p._untracked_data['w'] = v

    def same(b, k, label):
        for p, v in zip(parts(b), w[k]):
            env.eq(p._untracked_data['w'], v, label)

    put(0)
    e, t = Extra(), env.real('rate')
    e.configure(config=t)
    m.save(DIR, overwrite=True, protected=True, description='first',
           new_training_settings={'config': {'lr': t},
                                  'components': {'e': e}})
    have, unprotected = {1: 0}, []
    steps = env.int('steps', 0, 100)
    for k in range(1, count + 1):
        put(k)
        p = env.choose('protected%d' % k, 0, 1) == 1
        keep = env.choose('keep%d' % k, 1, 2)
        m.save_weights(DIR, max_keep=keep, protected=p,
                       description='d%d' % k,
                       **({'num_training_steps': steps} if k == 1 else {}))
        have[k + 1] = k
        if not p:
            unprotected.append(k + 1)
            while len(unprotected) > keep:
                del have[unprotected.pop(0)]
    for i, d in enumerate(ds):
        got = weights(fs, d)
        env.check(set(got) == set(have), 'checkpoints of a source')
        for k in have:
            env.eq(got[k], w[have[k]][i], 'weights of a source')
        meta = fs.files[d + '/model_checkpoint.yaml']
        env.check(sorted(meta['unprotected_checkpoints']) == unprotected,
                  'protection')
        both = dict(meta['unprotected_checkpoints'])
        both.update(meta['protected_checkpoints'])
        env.check(all(both[k]['description'] == (
            'd%d' % (k - 1) if k > 1 else 'first') for k in both),
            'description')
        y = fs.files[d + '/training/training_steps.yaml']
        env.eq(y['training_steps'][1]['num_training_steps'], steps,
               'number of training steps')
        env.eq(fs.files[d + '/training/step_0001/training_config.yaml'][
            'lr'], t, 'settings of a step')
    for number in [None] + sorted(have):
        kw = {} if number is None else {'checkpoint_number': number}
        k = count if number is None else have[number]
        for p in ps:
            p._untracked_data['w'] = None
        m.load_weights(DIR, **kw)
        same(m, k, 'weights of a source')
        b = Multi()
        b.load(DIR, **kw)
        same(b, k, 'weights of a loaded source')
        env.check(b.is_configured and b.is_compatible(m), 'loaded model')
        env.eq(b.configuration.config['config']['c'], c, 'setting')
        env.check(b.parameter_names == m.parameter_names
                  and b.num_parameters == m.num_parameters
                  and b.name == m.name and b._untracked_data['sources'] ==
                  m._untracked_data['sources'] and [
                      b.get_name(i) for i in range(b.num_parameters)] == list(
                          m.parameter_names) and all(
                      b.get_index(x) == m.get_index(x)
                      for x in m.parameter_names), 'parameters')
        env.eq(b.data_trafo.configuration.config['config'],
               trafo.configuration.config['config'], 'transformation')
        for p, q in zip(parts(b), ps):
            env.check(p.parameter_names == q.parameter_names
                      and p.name == q.name, 'parameters of a source')
    for k in range(2, count + 2):
        if k not in have:
            env.raises((KeyError, IOError), lambda: m.load_weights(
                DIR, checkpoint_number=k), 'removed checkpoint')


M = 'egenerator.model.base.Model.'
CASES = [dict(n=4), dict(n=5, keep=1), dict(n=4, keep=2, fresh=1),
         dict(n=3, vary=1),
         dict(n=3, keep=1, dir='/s/m[1]', others=[
             '/s/m1/model_checkpoint_%08d.index' % i for i in (1, 2, 3)]),
         dict(n=3, keep=1, others=[
             '/s/m/data.pickle', '/s/m/configuration.yaml',
             '/s/m2/model_checkpoint_00000001.index',
             '/s/m/model_checkpoint_00000001_old.index'])]
CRASH = [dict(n=n, keep=k) for n in (0, 1, 2) for k in (1, 2)] + [
    dict(n=3, keep=2)]
MULTI = [dict(tree={'cascade': 3, 'track': 2}),
         dict(tree={'b': 1, 'a': {'d': 2, 'c': 3}}, saves=2)]
HARNESSES = [
    Harness('history', history, CASES, [M + 'save_weights',
                                        M + 'load_weights'],
            'up to 5 (thorough 7) saves, every choice of protected '
            'checkpoints, 1 to 3 checkpoints to keep',
            thorough_cases=CASES + [dict(n=7, keep=k) for k in (1, 2, 3)]
            + [dict(n=4, vary=1)], max_paths=20000),
    Harness('crash', crash, CRASH, [M + 'save_weights'],
            'a crash before or after every change of the file system',
            thorough_cases=CRASH + [dict(n=4, keep=k) for k in (1, 2, 3)],
            max_paths=20000),
    Harness('full', full, [{}, {'again': 1}], [
        M + k for k in ('_save', '_load', 'save_training_settings',
                        'update_num_training_steps')], '2 training steps'),
    Harness('variables', variables, [dict(subs=k) for k in range(3)], [
        M + k for k in ('_configure', 'save_weights')],
            'a model with up to 2 models inside'),
    Harness('ensemble', ensemble, [dict(models=1), dict(models=3), dict(models=12)], [
        'egenerator.manager.base.BaseModelManager.' + k for k in (
            'save_weights', 'load_weights', 'save_training_settings')],
            'up to 12 models'),
    Harness('multi', multi, MULTI, ['egenerator.model.multi_source.base.'
                                    'MultiSource.' + k for k in (
                                        '_configure_derived_class', '_save',
                                        'save_weights', 'load_weights',
                                        '_load')],
            'up to 3 sources, also nested, 4 saves',
            thorough_cases=MULTI + [dict(tree={'a': 1, 'b': 2}, saves=5)])]
ASSUMPTIONS = ['files are kept in memory (stand-ins for os, open, yaml, glob '
               'and tf.train.Checkpoint), a checkpoint has two files; '
               'replacing a file is atomic']
