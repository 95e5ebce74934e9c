"""MultiLearningRateScheduler: every step uses the schedule of its interval."""
import numpy as np
import tensorflow as tf
from symx.runner import Harness
from symx import tfx
from egenerator.utils import learning_rate as lr

M = 'egenerator.utils.learning_rate.MultiLearningRateScheduler.'
TABLE = {}


class Probe(tf.optimizers.schedules.LearningRateSchedule):
    """A schedule that is linear in the step, with symbolic coefficients."""

    def __init__(self, index):
        self.index = index

    def __call__(self, step):
        a, b = TABLE['a'], TABLE['b']
        return a[self.index] * tf.cast(step, 'float64') + b[self.index]

    def get_config(self):
        return {'index': self.index}


def fn(bounds):
    sch = lr.MultiLearningRateScheduler(
        list(bounds), [{'full_class_string': 'props.P19.Probe',
                        'settings': {'index': i}}
                       for i in range(len(bounds) + 1)])

    def f(step, a, b):
        import props.P19 as mod
        mod.TABLE.update(a=a, b=b)
        return sch(step)
    return tfx.Fn(f, eager=False)


def body(env, case):
    bounds, n = case['bounds'], len(case['bounds']) + 1
    step = env.int('step', 0, 1000)
    a, b = env.array('a', (n,)), env.array('b', (n,))
    got = fn(bounds)(env, step, a, b,
                      dtypes=['int64', 'float64', 'float64'])
    got = got.at(0) if hasattr(got, 'at') else np.asarray(got).item()
    A, Bv = np.asarray(a), np.asarray(b)
    want = A[n - 1] * (step - bounds[-1]) + Bv[n - 1]
    for i in reversed(range(n - 1)):
        low = bounds[i - 1] if i else 0
        want = env.ite(step <= bounds[i], A[i] * (step - low) + Bv[i], want)
    env.eq(got, want, 'schedule of the interval of the step')


def config(env, case):
    env.raises(ValueError, lambda: lr.MultiLearningRateScheduler(
        list(range(case['nb'])), [{
            'full_class_string': 'props.P19.Probe',
            'settings': {'index': i}} for i in range(case['ns'])]),
        'number of boundaries does not match')


HARNESSES = [
    Harness('schedule', body, [{'bounds': b} for b in (
        [10], [10, 20], [5, 20, 50], [5, 20, 50, 300])],
        [M + '__init__', M + '__call__'],
        'every integer step in 0..1000, 2 to 5 schedules with symbolic '
        'linear coefficients, listed boundaries'),
    Harness('sizes', config, [{'nb': a, 'ns': b} for a, b in (
        (0, 2), (1, 1), (2, 2), (3, 2))], [M + '__init__'], 'listed sizes'),
]
ASSUMPTIONS = ['the combined schedules are probes, linear in the step they '
               'get']
