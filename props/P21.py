"""Sources: what the network is told, and invariances of the outputs."""
import math
import numpy as np
from symx.runner import Harness
from symx import tfx
from props import srcfx as sx
from props.P20 import M, OUT, SNOW, SYS, EX, case

PULSES = [[0, 0, 0], [1, 3, 2], [0, 85, 59], [0, 0, 0]]
FNS = {}
NB = 2


def traced(cs, outputs):
    key = repr(sorted(cs.items(), key=str)) + repr(outputs)
    if key not in FNS:
        raw = sx.tensors_fn(cs['kind'], cs, outputs)
        FNS[key] = (tfx.Fn(raw, dtype='float64', eager=False), raw)
    return FNS[key]


def n_par(cs):
    return len(sx.BASE) + 2 * (cs['kind'] == 'segment') + len(
        cs.get('extra', ())) + sum(k for _, k in cs.get('snow', ()))


def parameters(env, cs, name, nb=NB):
    par = np.array(env.array(name, (nb, n_par(cs)), smp=(0.5, 2.5)))
    pos = [5] + ([7] if cs['kind'] == 'segment' else [])
    for b in range(nb):
        for k in pos:
            par[b, k] = env.real('%s+%d_%d' % (name, b, k), pos=True,
                                 smp=(0.5, 2.5))
    return env.wrap(par)


def call(env, cs, outputs, par, pulses, charge, excl, tw, lat):
    f, raw = traced(cs, outputs)
    ne = len(cs.get('excl', []))
    r = f(env, par, pulses, charge, excl[:ne] if env.sym else
          np.asarray(excl)[:ne], tw, *lat)
    return dict(zip([k for k in outputs if k in raw.keys], r))


def data(env, cs, name=''):
    pulses = env.array('pulse' + name, (len(cs['pulses']), 3), lo=0.01,
                       smp=(0.05, 3))
    charge = env.lazy('charge' + name, (NB,) + sx.DOM + (1,), lo=0.1, hi=9,
                      pos=True)
    ne = len(cs.get('excl', []))
    excl = env.array('excl' + name, (max(ne, 1), 2), smp=(-2, 3))
    for k in range(ne):
        env.assume(np.asarray(excl)[k, 0] <= np.asarray(excl)[k, 1])
    tw = env.array('tw' + name, (NB, 2))
    return pulses, charge, excl, tw


def norm(v):
    return math.sqrt(sum(float(x) ** 2 for x in v))


def trafo(env, cs, par, b, k, mean, std):
    """Transformed parameter k of event b."""
    v = par[b, k]
    tr = cs.get('log', [False] * 5 + [True] + [False] * 99)
    if tr[k]:
        v = env.fn('log', 1 + v)
    return (v - mean[k]) / (sx.NORM + std[k])


def geometry(env, par, b, dom):
    from egenerator.utils import detector
    c = [float(v) for v in np.asarray(detector.x_coords)[dom]]
    d = [c[k] - par[b, k] for k in range(3)]
    zen, az = par[b, 3], par[b, 4]
    sin, cos = (lambda v: env.fn('sin', v)), (lambda v: env.fn('cos', v))
    dirs = [-sin(zen) * cos(az), -sin(zen) * sin(az), -cos(zen)]
    return c, d, dirs


def length(env, v):
    return env.fn('sqrt', sum(x * x for x in v))


def angle(env, u, v):
    """Angle between two vectors (Kahan)."""
    a, b = length(env, u), length(env, v)
    s = length(env, [x * b - y * a for x, y in zip(u, v)])
    t = length(env, [x * b + y * a for x, y in zip(u, v)])
    return 2 * env.fn('arctan2', s, t)


def optional(env, cs, u, n, c, mean, std):
    """The optional channels in their order."""
    out = []
    if cs.get('angle'):
        out += [('opening angle',
                 (angle(env, u, n) - mean[3]) / (sx.NORM + std[3]))]
    if cs.get('aniso'):
        a = env.fn('arctan2', -n[1], -n[0])
        a = env.ite(a < 0, a + 2 * env.pi(), a)
        out += [('anisotropy angle', (a - mean[4]) / (sx.NORM + std[4]))]
    if cs.get('coords'):
        out += [('dom coordinate', v / 284) for v in c]
    return out


def local(lat, cs, dom):
    """Trainable input of the DOM, the same for every event."""
    return [('local variable', lat[-1][(0,) + dom + (k,)])
            for k in range(cs.get('local', 0))]


def cascade_channels(env, cs, par, b, dom, mean, std, lat):
    c, d, u = geometry(env, par, b, dom)
    r = length(env, d)
    n = [x / r for x in d]
    tr = lambda k: trafo(env, cs, par, b, k, mean, std)     # noqa: E731
    geo = [('unit vector to the DOM', v) for v in n] + [
        ('distance', r / (norm(std[:3]) + sx.NORM))]
    dirs = [('direction', v) for v in u]
    if cs['kind'] == 'systematic':
        names = sx.BASE + [f.format(i) for f, num in cs.get('snow', ())
                           for i in range(num)]
        names[7:7] = cs.get('extra', ())
        add = [('parameter ' + k, tr(i)) for i, k in enumerate(names)
               if i >= 7 and k != 'DOMEfficiency']
        return [geo + local(lat, cs, dom), dirs + [('energy', tr(5))] + geo + optional(
            env, cs, u, n, c, mean, std) + add]
    return [[('position', tr(k)) for k in range(3)] + dirs + [
        ('energy', tr(5))] + [('parameter', tr(k)) for k in range(
            7, n_par(cs))] + geo + optional(env, cs, u, n, c, mean, std)
        + local(lat, cs, dom)]


def softplus(env, v):
    if not env.sym:
        return np.logaddexp(0., float(v))
    return env.fn('log', 1 + env.fn('exp', v))


def segment_channels(env, cs, par, b, dom, mean, std, lat):
    c, h, u = geometry(env, par, b, dom)
    e, lt = par[b, 5] + 0.1, par[b, 7] + 1
    tr = lambda k: trafo(env, cs, par, b, k, mean, std)     # noqa: E731
    inf = sum(x * y for x, y in zip(u, h))

    def shift(v):
        return v + softplus(env, -v) - softplus(env, v - lt)

    def energy(d1, d2):
        v = shift(d2) - shift(d1)
        return e * env.ite(v < 0, -v, v) / lt
    close = shift(inf)
    perp = length(env, [h[k] - inf * u[k] for k in range(3)])
    d = [h[k] - close * u[k] for k in range(3)]
    r = length(env, d) + 0.1
    n = [x / r for x in d]
    cher = inf - perp / math.tan(math.acos(1 / 1.3195))
    sc = norm(std[:3]) + sx.NORM
    en = [env.fn('log', 1 + energy(*w)) for w in (
        (close - 100, close), (close, close + 100), (cher, inf))]
    return [[('direction', v) for v in u] + [('energy', tr(5))] + [
        ('parameter', tr(k)) for k in range(7, n_par(cs))] + [
        ('unit vector to the DOM', v) for v in n] + [
        ('distance', r / sc), ('distance past the segment',
                               (inf - close) / sc)] + [
        ('energy around the DOM', (v - mean[5]) / (std[5] + sx.NORM))
        for v in en] + [('relative position', close / lt),
                        ('relative position', env.fn('tanh', inf / lt / 10))
                        ] + optional(env, cs, u, n, c, mean, std)
        + local(lat, cs, dom)]


def inputs(env, cs):
    """Every input channel equals its documented definition."""
    kind = cs['kind']
    n = n_par(cs)
    mean, std = sx.means(n), sx.stds(n)
    par = parameters(env, cs, 'par')
    pulses, charge, excl, tw = data(env, cs)
    lat = sx.latents(env, kind, cs, NB)
    out = call(env, cs, ['input0', 'input1'], par, pulses, charge, excl, tw,
               lat)
    par = np.asarray(par)
    for at in [(0, 0, 0), (1, 85, 59), (1, 40, 7), (0, 11, 30)][:cs.get(
            'doms', 4)]:
        want = (segment_channels if kind == 'segment' else
                cascade_channels)(env, cs, par, at[0], at[1:], mean, std,
                                  lat)
        for i, w in enumerate(want):
            x = out['input%d' % i]
            rest = lat[0].shape[-1] if i else 0     # output of network one
            env.check(tuple(x.shape) == (NB,) + sx.DOM + (len(w) + rest,),
                      'number of channels of network %d' % i)
            for k, (label, v) in enumerate(w):
                env.eq(x[at + (k,)], v, 'network %d: %s' % (i, label))
            for k in range(rest):
                env.eq(x[at + (len(w) + k,)], lat[0][at + (k,)],
                       'network 1: output of network 0')


def quantile_inputs(env, cs):
    """The second network is told about the pulse and its DOM."""
    par = parameters(env, cs, 'par')
    pulses, charge, excl, tw = data(env, cs)
    lat = sx.latents(env, cs['kind'], cs, NB)
    out = call(env, cs, ['input1', 'dom_charges'], par, pulses, charge, excl,
               tw, lat)
    x, pulses = out['input1'], np.asarray(pulses)
    n0, n = sx.N_CHARGE[cs['charge']], lat[0].shape[-1]
    log = lambda v: env.fn('log', v)                        # noqa: E731
    for i, at in enumerate(cs['pulses']):
        at = tuple(at)
        q, true = pulses[i, 0], charge[at + (0,)]
        mu = out['dom_charges'][at + (0,)]
        want = [('quantile of the pulse', log(pulses[i, 2])),
                ('charge of the DOM', log(true + 1) / 10),
                ('fraction of the charge', log(q / true))]
        want += [('output of network 0', lat[0][at + (k,)])
                 for k in range(n0, n)]
        if cs.get('addq'):
            want += [('expected charge', log(mu + 1) / 10),
                     ('fraction of the expected charge', log(q / mu))]
        env.check(tuple(x.shape) == (len(cs['pulses']), len(want)),
                  'number of channels of network 1')
        for k, (label, v) in enumerate(want):
            env.eq(x[i, k], v, 'network 1: ' + label)


def same(env, cs, a, b, fa, fb, label):
    """Outputs of one event agree; fa, fb: event index in either run."""
    for key in a:
        if key not in b:
            env.fail('{}: {} is missing'.format(label, key))
            continue
        x, y = a[key], b[key]
        per = len(x.shape) > 2
        if key.startswith('input1') and cs['kind'] == 'quantiles' or \
                key.startswith(('pulse', 'quantile')):
            for k, at in enumerate(cs['pulses']):
                if at[0] == fa:
                    one(env, x, y, (k,), (k,), label + ': ' + key)
        elif per:
            for dom in ((0, 0), (3, 2)):
                one(env, x, y, (fa,) + dom, (fb,) + dom, label + ': ' + key)


def one(env, x, y, i, j, label):
    rest = x.shape[len(i):]
    xs, ys = [], []
    for k in np.ndindex(*rest):
        xs.append(x[i + tuple(k)])
        ys.append(y[j + tuple(k)])
    env.eq(xs, ys, label)


def outputs(cs):
    return OUT + ['input0', 'input1'][:1 + (cs['kind'] == 'systematic')]


def time_shift(env, cs):
    """Moving source, pulses and windows in time changes nothing."""
    par = parameters(env, cs, 'par')
    pulses, charge, excl, tw = data(env, cs)
    lat = sx.latents(env, cs['kind'], cs, NB)
    a = call(env, cs, outputs(cs), par, pulses, charge, excl, tw, lat)
    ts = [env.real('shift%d' % k) for k in range(NB)]
    p2, q2, e2, w2 = [np.array(v) for v in (par, pulses, excl, tw)]
    for b in range(NB):
        p2[b, 6] = p2[b, 6] + ts[b]
        w2[b] = w2[b] + ts[b]
    for k, at in enumerate(cs['pulses']):
        q2[k, 1] = q2[k, 1] + ts[at[0]]
    for k, at in enumerate(cs.get('excl', ())):
        e2[k] = e2[k] + ts[at[0]]
    w = env.wrap
    b = call(env, cs, outputs(cs), w(p2), w(q2), charge, w(e2), w(w2), lat)
    same(env, cs, a, b, 0, 0, 'shifted')
    same(env, cs, a, b, 1, 1, 'shifted')


def second(env, first, other):
    """Batch of (event 0 of other, event 0 of first)."""
    if env.sym and isinstance(first, tfx.LA):
        half = first.size // 2
        return tfx.LA(first.shape, lambda i: first.at(i - half)
                      if i >= half else other.at(i))
    return env.wrap(np.stack([np.asarray(other)[0], np.asarray(first)[0]]))


def independent(env, cs):
    """An event does not depend on its position or the rest of the batch."""
    cs2 = dict(cs)
    cs2['pulses'] = [[1 - p[0]] + list(p[1:]) for p in cs['pulses']]
    if 'excl' in cs:
        cs2['excl'] = [[1 - p[0]] + list(p[1:]) for p in cs['excl']]
    par, par2 = parameters(env, cs, 'par'), parameters(env, cs, 'other')
    pulses, charge, excl, tw = data(env, cs)
    pulses2, charge2, excl2, tw2 = data(env, cs, 'other')
    lat = sx.latents(env, cs['kind'], cs, NB)
    if cs['kind'] == 'noise' or not lat:
        lat2 = lat
    else:
        # latents of the other event
        lat2 = []
        for i, v in enumerate(lat):
            if len(v.shape) == 4:
                o = env.lazy('other%d' % i, v.shape)
                lat2.append(second(env, v, o))
            else:
                lat2.append(v)
    q2, e2 = np.array(pulses2), np.array(excl2)
    for k, at in enumerate(cs['pulses']):
        if at[0] == 0:
            q2[k] = np.asarray(pulses)[k]
    for k, at in enumerate(cs.get('excl', ())):
        if at[0] == 0:
            e2[k] = np.asarray(excl)[k]
    a = call(env, cs, outputs(cs), par, pulses, charge, excl, tw, lat)
    b = call(env, cs2, outputs(cs), second(env, par, par2), env.wrap(q2),
             second(env, charge, charge2), env.wrap(e2),
             second(env, tw, tw2), lat2)
    same(env, cs, a, b, 0, 1, 'other events')


def translation(env, cs):
    """Only the position channels tell two translated views apart."""
    from egenerator.utils import detector
    par = parameters(env, cs, 'par')
    pulses, charge, excl, tw = data(env, cs)
    lat = sx.latents(env, cs['kind'], cs, NB)
    i, j = (3, 2), (40, 50)
    x = np.asarray(detector.x_coords)
    p2 = np.array(par)
    for k in range(3):
        p2[0, k] = p2[0, k] + float(x[j][k] - x[i][k])
    keys = ['input0', 'input1'][:1 + (cs['kind'] == 'systematic')]
    a = call(env, cs, keys, par, pulses, charge, excl, tw, lat)
    b = call(env, cs, keys, env.wrap(p2), pulses, charge, excl, tw, lat)
    first = 3 if cs['kind'] in ('cascade', 'quantiles') else 0
    for key in keys:
        n = a[key].shape[-1]
        if key == 'input1':
            n -= lat[0].shape[-1]
        env.eq([a[key][(0,) + i + (k,)] for k in range(first, n)],
               [b[key][(0,) + j + (k,)] for k in range(first, n)],
               'view from the DOM: ' + key)


F = [M + c + '.get_tensors' for c in (
    'cascade.default.DefaultCascadeModel',
    'cascade.systematic.SystematicsCascadeModel',
    'cascade.charge_quantiles.ChargeQuantileCascadeModel',
    'track.stochastic_segment.StochasticTrackSegmentModel')] + [
    'egenerator.utils.angles.get_angle',
    'egenerator.model.source.track.stochastic_segment.'
    'StochasticTrackSegmentModel.get_dep_energy',
    'egenerator.model.source.track.stochastic_segment.'
    'StochasticTrackSegmentModel.shift_distance_on_track']
B = '2 events, 4 DOMs, arbitrary source parameters'
B2 = ('2 events, 4 pulses, 2 DOMs per event, arbitrary network outputs, '
      'source parameters, pulse and window times')


def c(kind, **k):
    k = case(kind, **k)
    k['pulses'] = PULSES
    return k


INPUTS = [
    c('cascade'), c('cascade', angle=True, coords=True),
    c('cascade', snow=SNOW, angle=True),
    c('cascade', extra=['more', 'most'],
      log=[False] * 5 + [True, False, True, False]),
    c('cascade', log=[False] * 9), c('quantiles', coords=True, angle=True),
    c('systematic', angle=True, coords=True, aniso=True, **SYS),
    c('systematic', snow=[['A{}', 2]]),
    c('segment', angle=True), c('segment', coords=True, snow=SNOW)]
INPUTS += [
    c('cascade', local=2, coords=True), c('segment', local=1, angle=True),
    c('quantiles', local=2, snow=SNOW),
    c('systematic', local=2, angle=True, extra=['zeta', 'alpha'],
      snow=SNOW, eff=11, log=[False] * 5 + [True, False, True] +
      [False] * 9)]
HARNESSES = [
    Harness('inputs', inputs, INPUTS, F, B),
    Harness('quantile_inputs', quantile_inputs, [
        c('quantiles'), c('quantiles', charge=True, addq=True, scale=True),
        c('quantiles', charge=None, addq=True, local=1)], F[2:3], B2),
    Harness('time_shift', time_shift, [
        c('cascade', excl=EX), c('cascade', charge=True), c('quantiles'),
        c('systematic', **SYS), c('segment')], F, B2),
    Harness('independent', independent, [
        c('cascade', excl=EX), c('cascade', charge=True, scale=True),
        c('quantiles', addq=True), c('systematic', **SYS),
        c('segment', charge=True)], F, B2),
    Harness('translation', translation, [
        c('cascade', angle=True), c('systematic', aniso=True, **SYS),
        c('segment')], F, B2),
]
ASSUMPTIONS = ['the neural network is arbitrary: its outputs are unknowns',
               'tf.debugging.Assert has no effect on the values']
