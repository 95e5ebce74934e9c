"""The training step: loss of an ensemble, gradients and their use."""
import copy
import types
import numpy as np
import tensorflow as tf
from symx import terms as tm, tfx
from symx.runner import Harness
from props import fx
from egenerator.data.tensor import DataTensorList
from egenerator.manager import base
from egenerator.manager.base import BaseModelManager

SHAPES = {'w': (2,), 'b': (1,), 'u': (2,)}
FACTOR = [1., 2., 5.]


class Net(object):
    """A model with weights w, b and (if asked for) unused weights u."""

    def __init__(self, index, names):
        self.index = index
        self.vars = {n: tf.Variable(np.zeros(SHAPES[n]), dtype=tf.float64,
                                    name=n) for n in names}
        self.trainable_variables = tuple(self.vars[n] for n in names)
        self.step = tf.Variable(0)

    def get_tensors(self, batch, is_training, parameter_tensor_name):
        x = batch[parameter_tensor_name]
        y = tf.reduce_sum(x * self.vars['w'], axis=1) + self.vars['b']
        return {'y': y * (3. if is_training else 1.)}


class Loss(object):
    """Squares of the results, each model has its own weight."""

    def get_loss(self, batch, results, tensors, model=None,
                 parameter_tensor_name='x_parameters', scale=1., **kwargs):
        assert tensors.names == ['x_other', 'x_parameters', 'x_target']
        d = results['y'] - batch['x_target'][:, 0]
        return tf.reduce_sum(d**2) * FACTOR[model.index] * scale


class Given(object):
    """A loss with given gradients (of w and b of each model)."""

    def __init__(self, grads):
        self.grads = grads

    def get_loss(self, batch, results, tensors, model=None, **kwargs):
        g = self.grads[model.index]

        @tf.custom_gradient
        def f(w, b):
            return tf.constant(1., tf.float64), lambda d: (d * g[0], d * g[1])
        return f(model.vars['w'], model.vars['b'])


class Recorder(object):
    def apply_gradients(self, pairs, *a, **k):
        self.pairs = [(None if g is None else tf.identity(
            g, name='applied'), v)
                      for g, v in pairs]


def manager(case):
    man = BaseModelManager()
    names = case.get('vars', ['w', 'b'])
    models = [Net(i, names) for i in range(case['models'])]
    man._sub_components = {'models_%04d' % i: m
                           for i, m in enumerate(models)}
    man._sub_components['data_handler'] = types.SimpleNamespace(
        tensors=DataTensorList([
            fx.tensor('x_other', [None, 2], 'data'),
            fx.tensor('x_parameters', [None, 2], 'label'),
            fx.tensor('x_target', [None, 1], 'label')]))
    man._untracked_data = {'optimizer': Recorder()}
    return man, models


def python(f):
    return getattr(f, 'python_function', f)


FNS = {}


def traced(case, what):
    key = what + repr(sorted(case.items(), key=str))
    if key in FNS:
        return FNS[key]
    man, models = manager(case)
    opt = {'l1_regularization': 0., 'l2_regularization': 0.}
    opt.update(case.get('opt', {}))
    kw = case.get('kw', {})
    variables = [v for m in models for v in m.trainable_variables]

    def loss(other, x, target, *w):
        return python(man.get_loss)(
            (other, x, target), Loss(), opt, is_training=case['training'],
            **kw)

    def step(other, x, target, *rest):
        mod = Loss() if what == 'step' else Given(
            [rest[2 * i:2 * i + 2] for i in range(len(models))])
        man._untracked_data['optimizer'] = Recorder()
        python(man.perform_training_step)(
            (other, x, target), mod, opt, **kw)
        pairs = man.optimizer.pairs
        out = []
        for v in variables:
            g = [a for a, b in pairs if b is v and a is not None]
            assert len(g) <= 1 and sum(b is v for a, b in pairs) <= 1
            out.append(tf.concat([
                tf.reshape(g[0], [-1]) if g else tf.zeros(
                    [int(np.prod(v.shape))], tf.float64),
                [1. if g else 0.]], axis=0))
        return out
    F = tfx.Fn(loss if what == 'loss' else step, dtype='float64',
               eager=False, controls='applied' if what == 'nan' else None)
    FNS[key] = F, models, variables
    F.man = man
    return FNS[key]


def applied(F, args):
    """Computes only what the updates wait for (with the real graph)."""
    args = [tf.constant(np.asarray(a, dtype=float)) for a in args]
    w = tf.compat.v1.wrap_function(
        F.fn, [tf.TensorSpec(a.shape, a.dtype) for a in args])
    got = [g for g, v in F.man.optimizer.pairs if g is not None]
    w.prune(w.inputs[:len(args)], got)(*args)


def inputs(env, case):
    n = case.get('events', 2)
    other = env.array('other', (n, 2), smp=(-1, 1))
    x = env.array('x', (n, 2), smp=(-2, 2))
    t = env.array('t', (n, 1), smp=(-2, 2))
    return other, x, t


def weights(env, F, models, case):
    """Symbolic weights for all variables of all models."""
    out, F.variables = [], {}
    for m in models:
        vals = {}
        for n, v in m.vars.items():
            a = env.array('%s%d' % (n, m.index), v.shape.as_list(),
                          smp=(-2, 2), **case.get('w', {}))
            vals[n] = a
            if env.sym:
                F.variables[id(v)] = a
            else:
                v.assign(np.asarray(a, dtype=float))
        out.append(vals)
    return out


def entries(x):
    if isinstance(x, tfx.LA):
        return [x.at(i) for i in range(x.size)]
    return list(np.asarray(x).reshape(-1))


def reference(env, case, models, ws, x, t, training):
    """Loss and gradients."""
    opt = dict({'l1_regularization': 0., 'l2_regularization': 0.},
               **case.get('opt', {}))
    l1, l2 = opt['l1_regularization'], opt['l2_regularization']
    scale = case.get('kw', {}).get('scale', 1.)
    total, grads = 0., []
    k = 3. if training else 1.
    for m, w in zip(models, ws):
        f = FACTOR[m.index] * scale
        g = {n: [0.] * int(np.prod(SHAPES[n])) for n in w}
        for e in range(x.shape[0]):
            d = k * (x[e, 0] * w['w'][0] + x[e, 1] * w['w'][1]
                     + w['b'][0]) - t[e, 0]
            total = total + f * d * d
            for j in range(2):
                g['w'][j] = g['w'][j] + 2. * f * k * d * x[e, j]
            g['b'][0] = g['b'][0] + 2. * f * k * d
        for n in w:
            for j in range(len(g[n])):
                v = w[n][j]
                if l1 > 0.:
                    total = total + l1 * env.ite(v > 0, v, -v)
                    g[n][j] = g[n][j] + l1 * env.ite(
                        v > 0, 1., env.ite(v < 0, -1., 0.))
                if l2 > 0.:
                    total = total + l2 * v * v
                    g[n][j] = g[n][j] + 2. * l2 * v
        grads.append(g)
    return total, grads


def loss(env, case):
    """Sum over the models of their loss and regularization."""
    F, models, _ = traced(case, 'loss')
    other, x, t = inputs(env, case)
    ws = weights(env, F, models, case)
    got = F(env, other, x, t)
    want, _ = reference(env, case, models, ws, x, t, case['training'])
    env.eq(entries(got)[0], want, 'loss')


def step(env, case):
    """Every variable gets the gradient of the loss with respect to it."""
    F, models, variables = traced(case, 'step')
    other, x, t = inputs(env, case)
    ws = weights(env, F, models, case)
    got = [entries(g) for g in F(env, other, x, t)]
    _, grads = reference(env, case, models, ws, x, t, True)
    want = [grads[m.index][n] for m in models for n in m.vars]
    opt = case.get('opt', {})
    l = opt.get('l1_regularization', 0.) + opt.get('l2_regularization', 0.)
    clip = opt.get('clip_gradients_value')
    f = 1.
    if clip is not None:
        norm = sum((g * g for w in want for g in w), 0.)
        norm = env.fn('sqrt', norm)
        f = env.ite(norm > clip, clip / norm, 1.)
    i = 0
    for m in models:
        for n in m.vars:
            used = n != 'u' or l > 0
            env.check(env.and_(got[i][-1] == 1.) if used else True,
                      'variable is updated')
            for j in range(len(want[i])):
                env.eq(got[i][j], want[i][j] * f, 'gradient')
            i += 1


def nan(env, case):
    """Invalid gradients are replaced (if asked for) or refused."""
    F, models, variables = traced(case, 'nan')
    other, x, t = inputs(env, dict(case, events=1))
    weights(env, F, models, case)
    g, bad = [], {}
    for m in models:
        for n in ('w', 'b'):
            a = env.array('g%s%d' % (n, m.index), SHAPES[n], smp=(-2, 2))
            for j in range(len(a)):
                bad[len(g), j] = b = env.bool('nan%s%d_%d' % (n, m.index, j))
                if not env.sym and b:
                    a[j] = np.nan
            g.append(a)
    opt = case.get('opt', {})
    if env.sym:
        names = {g[k][j]: bad[k, j] for k, j in bad}
        F.hooks = {'IsNan': lambda op, ins: [isnan(ins[0], names)],
                   'IsFinite': lambda op, ins: [isnan(ins[0], names, True)]}
    try:
        got = [entries(q) for q in F(env, other, x, t, *g)]
        ok = True
        if not env.sym:
            applied(F, [other, x, t] + g)
    except tf.errors.InvalidArgumentError:
        got, ok = None, False
        try:
            applied(F, [other, x, t] + g)
            ok = True
        except tf.errors.InvalidArgumentError:
            pass
    if env.sym:
        ok = env.and_(*[env.or_(*([env.not_(c) for c in path] + [cond]))
                        for path, cond in F.last.asserts])
    any_bad = env.or_(*[bad[k, j] for k in range(len(g))
                        for j in range(len(g[k]))])
    if not opt.get('remove_nan_gradients'):
        env.check(env.implies(any_bad, env.not_(ok)),
                  'invalid gradients are refused')
        env.check(env.implies(env.not_(any_bad), ok),
                  'valid gradients are used')
    else:
        env.check(ok, 'replaced gradients are used')
    i = 0
    for m in models:
        for n in m.vars:
            for j in range(int(np.prod(SHAPES[n]))):
                if n == 'u':
                    continue
                k = 2 * m.index + ('w', 'b').index(n)
                if got is None:
                    env.check(True, 'gradient')
                elif opt.get('remove_nan_gradients'):
                    env.eq(got[i][j], env.ite(bad[k, j], 0., g[k][j]),
                           'gradient')
                else:
                    env.check(env.implies(env.not_(any_bad), env.and_(
                        got[i][j] == g[k][j])), 'gradient')
            i += 1


def isnan(x, names, negate=False):
    """NaN entries follow from those of the given gradients."""
    x = tfx.lazy(x)

    def of(t):
        if t in names:
            return names[t]
        if t.op == 'ite':
            return tm.or_(of(t.args[0]), tm.ite(
                t.args[0], of(t.args[1]), of(t.args[2])))
        out = tm.FALSE
        for a in t.args:
            if isinstance(a, tm.T):
                out = tm.or_(out, of(a))
        return out

    def at(i):
        return tm.not_(of(x.at(i))) if negate else of(x.at(i))
    return tfx.LA(x.shape, at)


B = 'egenerator.manager.base.BaseModelManager.'

class Stream(object):
    """Counts its batches."""

    def __init__(self, name):
        self.name, self.n = name, 0
        self.element_spec = ('spec', name)

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return (self.name, self.n)


class Step(object):
    def __init__(self):
        self.n = 0

    def assign_add(self, k):
        self.n += k


class Tf(object):
    def __init__(self, made):
        writer = types.SimpleNamespace(flush=lambda: None)
        self.summary = types.SimpleNamespace(
            create_file_writer=lambda d: writer)

        class Opt(object):
            def __init__(self, **k):
                made.append(k)
        self.optimizers = types.SimpleNamespace(Adam=Opt)
        self.keras = types.SimpleNamespace(optimizers=self.optimizers)

    def convert_to_tensor(self, x, *a, **k):
        return x

    constant = convert_to_tensor
    cast = convert_to_tensor

    def __getattr__(self, name):
        return getattr(tf, name)


class Schedule(object):
    def __init__(self, rate, decay):
        self.args = rate, decay


def train(env, case):
    """Batches, steps and checkpoints of the training loop."""
    n = env.choose('n', 1, case['n'])
    freq = {k: env.choose(k, 1, 3) for k in case['vary']}
    rate, decay = env.real('rate'), env.real('decay')
    fail = env.choose('invalid', 0, n) if case.get('invalid') else 0
    man = BaseModelManager()
    models = [types.SimpleNamespace(step=Step()) for i in range(2)]
    made, log, streams = [], [], {}

    def dataset(name):
        s = streams[name] = Stream(name)
        return s
    man._untracked_data = {}
    man._configuration = types.SimpleNamespace(
        config={'config': {'manager_dir': '/s/m'}})
    man._sub_components = {'models_%04d' % i: m
                           for i, m in enumerate(models)}
    man._sub_components['data_handler'] = types.SimpleNamespace(
        tensors='tensors', get_tf_dataset=dataset)
    man._is_configured = True
    env.patch(base, 'tf', Tf(made))
    env.patch(base, 'print', lambda *a: None)
    env.patch(base.misc, 'load_class', lambda s: Schedule)

    def concrete(function, input_signature, **fixed):
        name = 'train' if function == man.perform_training_step else 'loss'
        env.check(name == 'train' or function == man.get_loss, 'function')

        def call(data_batch):
            log.append((name, data_batch, dict(fixed),
                        [m.step.n for m in models]))
            steps = sum(e[0] == 'train' for e in log)
            return float('nan') if name == 'loss' and steps == fail else 1.
        return call
    env.patch(man, 'get_concrete_function', concrete)
    env.patch(man, 'save', lambda *a, **k: log.append(
        ('start', dict(zip(['dir_path'], a), **k))))
    env.patch(man, 'save_weights', lambda *a, **k: log.append(
        ('save', dict(zip(['dir_path'], a), **k), sum(
            e[0] == 'train' for e in log))))
    evaluation = types.SimpleNamespace(evaluate=lambda *a, **k:
        log.append(('evaluate', a[0] if a else k['data_batch'], k))) if case.get('evaluation') \
        else None
    opt = {'optimizer_name': 'Adam', 'optimizer_settings': {
        'learning_rate': {'full_class_string': 'Schedule', 'settings': {
            'rate': rate, 'decay': decay}} if case.get('schedule')
        else rate, 'beta_1': decay},
        'additional_loss_module_kwargs': {'extra': 3},
        'validation_frequency': 1, 'evaluation_frequency': 1,
        'save_frequency': 1}
    opt.update(freq)
    config = {'training_settings': opt, 'data_iterator_settings': {
        'training': {'name': 'training'},
        'validation': {'name': 'validation'}}}
    given = copy.deepcopy(config)
    try:
        man.train(config, 'loss module', n, evaluation_module=evaluation)
        done = True
    except ValueError:
        done = False
    v = opt['validation_frequency']
    stop = fail > 0 and (fail - 1) % v == 0
    env.check(done == (not stop), 'invalid losses end the training')
    last = fail if stop else n
    # optimizer
    k = made[0]
    env.check(len(made) == 1 and set(k) == {'learning_rate', 'beta_1'},
              'settings of the optimizer')
    env.eq(k['beta_1'], decay, 'settings of the optimizer')
    if case.get('schedule'):
        env.eq(k['learning_rate'].args[0], rate, 'learning rate')
        env.eq(k['learning_rate'].args[1], decay, 'learning rate')
    else:
        env.eq(k['learning_rate'], rate, 'learning rate')
        env.eq(0., 0., 'learning rate')
    env.check(str(config) == str(given), 'settings are not changed')
    env.check(man.optimizer is not None, 'optimizer')
    # beginning
    first = log[0]
    env.check(first[0] == 'start' and first[1]['dir_path'] == '/s/m'
              and first[1]['protected'] and first[1]['overwrite']
              and first[1]['new_training_settings']['config'] == config
              and str(first[1]['new_training_settings']['config']) == str(given),
              'saved before the training')
    comp = first[1]['new_training_settings']['components']
    env.check(comp == dict({'loss_module': 'loss module'}, **(
        {'evaluation_module': evaluation} if evaluation else {})),
        'training components')
    # batches
    steps = [e for e in log if e[0] == 'train']
    env.check(len(steps) == last, 'number of training steps')
    env.check(all(e[2]['loss_module'] == 'loss module' and e[2][
        'extra'] == 3 for e in log if e[0] in ('train', 'loss')),
        'arguments of the loss')
    env.check(all(e[2]['is_training'] is False for e in log
                  if e[0] == 'loss'), 'no training mode')
    env.check([e[3] for e in steps] == [[i, i] for i in range(
        1, last + 1)], 'steps of the models')
    used = [e[1] for e in log if e[0] in ('train', 'loss', 'evaluate')]
    env.check(len(set(used)) == len(used) and all(
        [b for b in used if b[0] == s] == sorted(
            b for b in used if b[0] == s) for s in streams),
        'every batch is used once, in order')
    env.check(all(e[1][0] == 'training' for e in steps), 'training batches')
    env.check(all(e[1][0] == 'validation' for e in log
                  if e[0] == 'evaluate'), 'batches of the evaluation')
    env.check(sum(e[0] == 'evaluate' for e in log) == (
        0 if evaluation is None else sum(
            i % opt['evaluation_frequency'] == 0
            for i in range(last - stop))), 'number of evaluations')
    env.check([e[1][0] for e in log if e[0] == 'loss'] == [
        'training', 'validation'] * sum(i % v == 0 for i in range(last)),
        'number of validations')
    # checkpoints
    saves = [e for e in log if e[0] == 'save']
    env.check(all(e[1]['dir_path'] == '/s/m' for e in saves), 'directory')
    env.check(all(e[1]['num_training_steps'] == e[2] for e in saves),
              'number of training steps of a checkpoint')
    env.check([e[2] for e in saves if not e[1].get('protected')] == [
        i + 1 for i in range(1, last - stop)
        if i % opt['save_frequency'] == 0], 'checkpoints')
    env.check([e[2] for e in saves if e[1].get('protected')] == (
        [] if stop else [n]) and (stop or log[-1] is saves[-1]),
        'checkpoint at the end')


LOSS = [dict(models=m, training=t, opt=o) for m, t, o in (
    (1, True, {}), (1, False, {'l1_regularization': .5}),
    (2, True, {'l2_regularization': .25}),
    (2, False, {'l1_regularization': .5, 'l2_regularization': 2.}))] + [
    dict(models=3, training=True, kw={'scale': 7.})]
STEP = [dict(models=1, opt={}), dict(models=2, opt={}, kw={'scale': 7.}),
        dict(models=2, opt={'l1_regularization': .5,
                            'l2_regularization': .25}),
        dict(models=2, opt={}, vars=['w', 'u', 'b']),
        dict(models=2, opt={'remove_nan_gradients': True},
             vars=['u', 'w', 'b']),
        dict(models=1, opt={'clip_gradients_value': 2.}, vars=['u', 'b', 'w'],
             events=1),
        dict(models=2, opt={'clip_gradients_value': 2.,
                            'remove_nan_gradients': True}, events=1)]
NAN = [dict(models=m, vars=v, opt=o) for m, v, o in (
    (1, ['w', 'b'], {}), (2, ['w', 'b'], {'remove_nan_gradients': False}),
    (1, ['w', 'b'], {'remove_nan_gradients': True}),
    (2, ['w', 'u', 'b'], {'remove_nan_gradients': True}))]
F3 = ['validation_frequency', 'evaluation_frequency', 'save_frequency']
TRAIN = [dict(n=5, vary=F3, evaluation=1),
         dict(n=4, vary=F3[:1], schedule=1, invalid=1),
         dict(n=3, vary=F3[2:], invalid=1, evaluation=1)]
HARNESSES = [
    Harness('loss', loss, LOSS, [B + 'get_loss', B + 'regularization_loss'],
            'up to 3 models, 2 events, every weight'),
    Harness('step', step, STEP, [B + 'perform_training_step'],
            'up to 2 models with 3 variables, 2 events'),
    Harness('nan', nan, NAN, [B + 'perform_training_step'],
            'every subset of invalid gradients of up to 2 models'),
    Harness('train', train, TRAIN, [B + 'train'],
            'up to 5 (thorough 7) training steps, frequencies up to 3',
            thorough_cases=TRAIN + [dict(t, n=7) for t in TRAIN])]
ASSUMPTIONS = []
