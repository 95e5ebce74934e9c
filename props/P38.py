"""Simulation of events: light sources, their parameters and pulses."""
import types
import numpy as np
import tensorflow as tf
from symx.runner import Harness
from props import icetray
from props.icetray import Particle
from egenerator.ic3 import simulation
from egenerator.ic3.simulation import EventGeneratorSimulation

NAMES = ['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time', 'Absorption',
         'Scale']


class Arr(object):
    """A tensor (entries are kept as they are)."""

    def __init__(self, a):
        self.a = a

    def numpy(self):
        return self.a


class Tf(object):
    float64 = tf.float64
    float32 = tf.float32

    def convert_to_tensor(self, x, dtype=None):
        assert dtype is tf.float64
        return Arr(x)


class Model(object):
    num_variables = 1, 2

    def __init__(self, names):
        self.parameter_names = list(names)
        self.num_parameters = len(names)

    def get_index(self, name):
        return self.parameter_names.index(name)

    def get_name(self, i):
        return self.parameter_names[i]


class Random(object):
    """Random numbers are arbitrary; remembers them."""

    def __init__(self, env):
        self.env, self.draws = env, []

    def uniform(self, low=0., high=1., size=None):
        k = len(self.draws)
        size = tuple(int(n) for n in np.atleast_1d(size))
        a = self.env.array('draw%d' % k, size, lo=low, hi=high,
                           smp=(low, high))
        self.draws.append((low, high, a.copy()))
        return a


class Tree(object):
    def __init__(self, primaries, daughters):
        self.primaries, self.daughters = primaries, daughters

    def get_primaries(self):
        return list(self.primaries)

    def get_daughters(self, p):
        return list(self.daughters.get(id(p), []))


def module(env, names=NAMES, tensors=None, default=None, seed=0):
    made = {}

    def configurator(manager_dirs, **k):
        made['dirs'] = manager_dirs
        model = Model(names)
        man = types.SimpleNamespace(
            models=[model], get_model_tensors_function=lambda *a, **k: (
                lambda x: made.setdefault('calls', []).append(x) or tensors),
            data_trafo=types.SimpleNamespace(data={'tensors': {
                'x_parameters': types.SimpleNamespace(dtype='float64')}}))
        return types.SimpleNamespace(manager=man)
    env.patch(simulation, 'ManagerConfigurator', configurator)
    env.patch(simulation, 'tf', Tf())
    env.patch(simulation, 'print', lambda *a: None)
    env.patch_np(simulation)
    m = EventGeneratorSimulation(None)
    m.params.update(model_name='m', model_base_dir='/s', output_key='out',
                    mc_tree_name='tree', random_service=Random(env),
                    max_simulation_distance=2250.,
                    min_simulation_energy=100.)
    m.params['default_values'] = {'Absorption': 1., 'Scale': 1.} \
        if default is None else default
    m.Configure()
    return m, made


def particle(env, tag, kind, full=False):
    p = Particle(type=kind, energy=env.real(tag + 'energy', nonneg=True,
                                            smp=(10, 1000)),
                 length=env.real(tag + 'length', nonneg=True, smp=(0, 500)))
    p.pos.magnitude = env.real(tag + 'r', nonneg=True, smp=(1000, 3500))
    if full:
        for k in 'xyz':
            setattr(p.pos, k, env.real(tag + k, smp=(-500, 500)))
        p.dir.zenith = env.real(tag + 'zenith', smp=(0, 3))
        p.dir.azimuth = env.real(tag + 'azimuth', smp=(0, 6))
        p.time = env.real(tag + 'time', smp=(0, 1e4))
    return p


TREES = {
    'cascade': ['NuE', ['EMinus'], ['Hadrons', ['Gamma'], ['Pi0']]],
    'nested': ['NuTau', ['NuTau', ['NuEBar'], ['EPlus']], ['DeltaE']],
    'chain': ['Hadrons', ['Hadrons', ['Hadrons', ['Brems']]], ['PairProd']],
    'em': ['Gamma', ['EMinus'], ['EPlus']],
    'muon': ['NuMu', ['MuMinus', ['DeltaE']], ['EMinus']],
    'dead': ['NuMu', ['Hadrons'], ['EMinus']],
}
EM = ['Pi0', 'Gamma', 'PairProd', 'Brems', 'DeltaE', 'EMinus', 'EPlus']
DARK = ['NuE', 'NuMu', 'NuTau', 'NuEBar', 'NuMuBar', 'NuTauBar']


for _k in EM + DARK + ['Hadrons', 'MuMinus', 'MuPlus', 'TauMinus']:
    TREES['alone ' + _k] = [_k]
    TREES['above ' + _k] = [_k, ['Gamma']]


def build(env, spec, tag, daughters, out):
    p = particle(env, tag, spec[0])
    out.append(p)
    daughters[id(p)] = [build(env, s, '%s%d' % (tag, i), daughters, out)
                        for i, s in enumerate(spec[1:])]
    return p


def sources(env, case):
    """Every emitting particle within reach is simulated once."""
    m, _ = module(env)
    daughters, everything = {}, []
    primaries = [build(env, TREES[k], 'p%d_' % i, daughters, everything)
                 for i, k in enumerate(case['trees'])]

    def expect(p):
        if bool(p.energy < 100.) or bool(p.pos.magnitude - p.length > 2250.):
            return []
        if p.type in EM:
            return [p]
        d = daughters[id(p)]
        if not d and p.type not in DARK:
            raise NotImplementedError
        if d and p.type not in DARK + ['Hadrons']:
            raise ValueError
        return [q for x in d for q in expect(x)]
    try:
        want = [q for p in primaries for q in expect(p)]
    except (NotImplementedError, ValueError):
        want = None
    tree = Tree(primaries, daughters)
    try:
        cascades, tracks = m.get_light_sources(tree)
    except (NotImplementedError, ValueError):
        cascades = None
    env.check((want is None) == (cascades is None),
              'particles that cannot be simulated')
    if want is not None and cascades is not None:
        env.check(len(cascades) == len(want) and sorted(
            map(id, cascades)) == sorted(map(id, want)) and not tracks,
            'light sources')
    else:
        env.check(True, 'light sources')


def parameters(env, case):
    """The hypothesis of a source has the properties of its particle."""
    names = [NAMES[i] for i in case['order']]
    a, b = env.real('a'), env.real('b')
    default = {'Absorption': a, 'Scale': 'scale'}
    if case.get('fixed'):
        default['zenith'] = b
    m, made = module(env, names, default=default)
    if case.get('tracks'):
        ps = [particle(env, 'p%d_' % i, 'Gamma', full=True)
              for i in range(case['n'])]
        tr = particle(env, 'track', 'MuMinus', full=True)
        frame = {'tree': 'tree', 'scale': types.SimpleNamespace(value=b)}
        env.patch(m, 'get_light_sources', lambda t: (ps, [tr]))
        env.raises(NotImplementedError, lambda: m.DAQ(frame),
                   'tracks are refused')
        env.check(not m.pushed, 'nothing is pushed')
        return
    env.check(made['dirs'] == ['/s/m'], 'directory')
    ps = [particle(env, 'p%d_' % i, 'Gamma', full=True)
          for i in range(case['n'])]
    frame = {'scale': types.SimpleNamespace(value=b),
             'tree': Tree(ps, {})}
    for p in ps:
        env.assume(p.energy >= 100.)
        env.assume(p.pos.magnitude - p.length <= 2250.)
    pulses = {}
    env.patch(m, 'sample_pulses', lambda r, s: pulses)
    m.DAQ(frame)
    env.check(m.pushed == [frame] and frame['out'] is pulses, 'frame')
    got = made['calls'][0].numpy()
    env.check(len(made['calls']) == 1 and got.shape == (
        case['n'], len(names)), 'shape')
    for i, p in enumerate(ps):
        for j, k in enumerate(names):
            want = {'Absorption': a, 'Scale': b}.get(k)
            if want is None:
                want = b if k == 'zenith' and case.get('fixed') else getattr(
                    p.pos if k in 'xyz' else
                    p.dir if k in ('zenith', 'azimuth') else p, k)
            env.eq(got[i, j], want, 'parameter ' + k)


def unknown(env, case):
    env.raises(KeyError, lambda: module(env, NAMES + ['other'], default={
        'Absorption': 1., 'Scale': 1.}), 'parameter without a value')


def close(env, a, b):
    return a == b if env.sym else bool(
        abs(a - b) <= 1e-9 * max(1., abs(a), abs(b)))


def pulses(env, case):
    """Charges, times and DOMs of the simulated pulses."""
    n, k = case['n'], case.get('k', 2)
    ids = case['doms']
    shape = (n, 86, 60, k)
    lat = {}
    for name, kw in (('scale', dict(pos=True, smp=(.1, 1))),
                     ('mu', {}), ('sigma', dict(pos=True, smp=(.1, 1))),
                     ('r', dict(pos=True, smp=(.1, 2)))):
        a = np.full(shape, .5, dtype=object if env.sym else float)
        for i in range(n):
            for d, (s, o) in enumerate(ids):
                v = env.reals('%s%d_%d' % (name, i, d), k, **kw)
                if name == 'scale':
                    tot = sum(v[1:], v[0])
                    v = [x / tot for x in v]
                a[i, s, o] = v
        lat[name] = env.wrap(a)
    charge = env.native(np.zeros((n, 86, 60, 1), dtype=int))
    for i in range(n):
        for d, (s, o) in enumerate(ids):
            charge[i, s, o, 0] = env.choose('pe%d_%d' % (i, d), 0,
                                            case.get('pe', 1))
    tens = {'latent_var_' + q: Arr(v) for q, v in lat.items()}
    tens['dom_charges'] = Arr(np.ones((n, 86, 60, 1)))
    tens['dom_charges_variance'] = Arr(np.ones((n, 86, 60, 1)))
    m, _ = module(env)
    drawn, values = [], []

    def negative(rng, mu, alpha_or_var, param_is_alpha, size=None):
        env.check(rng is m.random_service and mu is tens[
            'dom_charges'].a and alpha_or_var is tens[
            'dom_charges_variance'].a and param_is_alpha is False,
            'number of photo-electrons')
        return charge.copy()

    def ppf(q, mu=0., sigma=1., r=1.):
        out = np.empty(len(q), dtype=object if env.sym else float)
        for j in range(len(q)):
            v = env.real('t%d' % len(values), smp=(-1, 1))
            values.append((q[j], mu[j], sigma[j], r[j], v))
            out[j] = v
        return env.wrap(out)
    basis = types.SimpleNamespace(asymmetric_gauss_ppf=ppf,
                                  sample_from_negative_binomial=negative)
    env.patch(simulation, 'basis_functions', basis)
    times = env.reals('time', n, smp=(0, 1000))
    src = np.zeros((n, len(NAMES)), dtype=object if env.sym else float)
    for i in range(n):
        src[i, 6] = times[i]
    got = m.sample_pulses(tens, Arr(env.wrap(src)))
    rnd = m.random_service.draws
    env.check({tuple(q) for q in got} == {
        (s + 1, o + 1) for s, o in ids if charge[:, s, o].any()}, 'DOMs')
    p, v = 0, 0
    for s, o in sorted(ids):
        series = got.get(icetray.OMKey(s + 1, o + 1), [])
        want = []
        for i in range(n):
            pe = int(charge[i, s, o, 0])
            if not pe:
                continue
            low, high, c = rnd[p]
            env.check((low, high) == (.25, 1.75) and c.shape == (pe,),
                      'range of the charges')
            low, high, u = rnd[p + 1]
            env.check((low, high) == (0., 1.) and u.shape == (pe, 2),
                      'random numbers of the times')
            p += 2
            for j in range(pe):
                cum = 0.
                comp = k - 1
                for q in range(k - 1):
                    cum = cum + lat['scale'][i, s, o, q]
                    if bool(u[j, 0] <= cum):
                        comp = q
                        break
                rec = values[v]
                v += 1
                env.eq(rec[0], u[j, 1], 'quantile')
                for name, x in zip(('mu', 'sigma', 'r'), rec[1:4]):
                    env.eq(x, lat[name][i, s, o, comp], 'mixture component')
                want.append((rec[4] * 1000. + times[i],
                             c[j] * (pe / sum(c[1:], c[0]))))
        env.check(len(series) == len(want), 'number of pulses')
        for a, b in zip(series, series[1:]):
            env.le(a.time, b.time, 'pulses are sorted')
        for t, c in want:
            env.check(env.or_(*[env.and_(close(env, q.time, t), close(
                env, q.charge, c)) for q in series]),
                'time and charge of a pulse')
        for q in series:
            env.check(env.or_(*[env.and_(close(env, q.time, t), close(
                env, q.charge, c)) for t, c in want]),
                'time and charge of a pulse')
            env.check(env.and_(q.charge > 0.), 'positive charge')
        if series:
            tot = sum((q.charge for q in series[1:]), series[0].charge)
            env.eq(tot, float(charge[:, s, o].sum()), 'total charge')
    env.check(p == len(rnd) and v == len(values), 'random numbers used')


E = 'egenerator.ic3.simulation.EventGeneratorSimulation.'
HARNESSES = [
    Harness('sources', sources, [dict(trees=[t]) for t in TREES] + [
        dict(trees=['em', 'dead', 'em'])], [
        E + 'get_light_sources', E + '_get_light_sources'],
        'trees of up to 5 particles, every energy, distance and length',
        thorough_cases=[dict(trees=[t, u]) for t in sorted(TREES) if ' ' not in t
                        for u in ('cascade', 'em')], max_paths=20000),
    Harness('parameters', parameters, [
        dict(order=list(range(9)), n=2),
        dict(order=[8, 3, 1, 0, 7, 2, 6, 5, 4], n=3, fixed=1),
        dict(order=list(range(9)), n=0, tracks=1),
        dict(order=list(range(9)), n=1, tracks=1)],
        [E + 'DAQ', E + 'convert_cascades_to_tensor'], 'up to 3 particles'),
    Harness('unknown', unknown, [{}], [E + 'Configure'], '1 parameter'),
    Harness('pulses', pulses, [
        dict(n=1, doms=[(0, 0), (85, 59)]),
        dict(n=2, doms=[(3, 17)]),
        dict(n=1, doms=[(7, 2)], pe=2, k=3)], [E + 'sample_pulses'],
        'up to 2 sources, 2 DOMs, 2 photo-electrons, 3 components',
        thorough_cases=[dict(n=2, doms=[(3, 17), (3, 18)]),
                        dict(n=1, doms=[(7, 2)], pe=3),
                        dict(n=3, doms=[(85, 0)])], max_paths=20000)]
ASSUMPTIONS = ['icecube is not installed: stand-ins for its classes; the '
               'numbers of photo-electrons and random numbers are arbitrary, '
               'the inverse of the asymmetric Gaussian is P15']
