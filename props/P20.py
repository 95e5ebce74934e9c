"""Sources: expected charge, its distribution and the pulse time density."""
import numpy as np
from symx.runner import Harness
from symx import tfx
from props import srcfx as sx

M = 'egenerator.model.source.'
PULSES = [[0, 0, 0], [1, 3, 2], [0, 85, 59], [1, 3, 2]]
OUT = ['dom_charges', 'dom_charges_variance', 'dom_charges_unc',
       'dom_charges_alpha', 'dom_charges_sigma', 'dom_charges_r',
       'dom_charges_log_pdf_values', 'latent_var_mu', 'latent_var_sigma',
       'latent_var_r', 'latent_var_scale', 'pulse_pdf', 'pulse_quantile_pdf',
       'quantile_latent_var_scale', 'quantile_latent_var_sigma',
       'quantile_latent_var_r', 'dom_cdf_exclusion', 'dom_cdf_exclusion_sum']
NB = 2
FNS = {}


def run(env, case):
    kind = case['kind']
    key = repr(sorted(case.items(), key=str))
    if key not in FNS:
        raw = sx.tensors_fn(kind, case, OUT)
        FNS[key] = (tfx.Fn(raw, dtype='float64', eager=False), raw)
    f, raw = FNS[key]
    n = len(sx.BASE) + 2 * (kind == 'segment') + len(
        case.get('extra', ())) + sum(k for _, k in case.get('snow', ()))
    par = env.array('par', (NB, n), smp=(0.5, 2.5))
    if case.get('scale') or case.get('eff'):
        # energies and efficiencies are positive
        par = np.array(par)
        for b in range(NB):
            for k in (5, case.get('eff', 5)):
                par[b, k] = env.real('pos_%d_%d' % (b, k), pos=True,
                                     smp=(0.5, 2.5))
        par = env.wrap(par)
    pulses = env.array('pulse', (len(case['pulses']), 3), lo=0.01,
                       smp=(0.05, 3))
    charge = env.lazy('charge', (NB,) + sx.DOM + (1,), lo=0.1, hi=9,
                      pos=True)
    ne = len(case.get('excl', []))
    excl = env.array('excl', (max(ne, 1), 2), smp=(-2, 3))
    for k in range(ne):
        env.assume(np.asarray(excl)[k, 0] <= np.asarray(excl)[k, 1])
    tw = env.array('tw', (NB, 2))
    lat = sx.latents(env, kind, case, NB)
    r = f(env, par, pulses, charge, excl[:ne] if env.sym else
          np.asarray(excl)[:ne], tw, *lat)
    out = dict(zip([k for k in OUT if k in raw.keys], r))
    g = lambda v: (lambda *i: v[i])                         # noqa: E731
    lats = [g(v) if hasattr(v, 'at') else g(np.asarray(v)) for v in lat]
    return out, np.asarray(par), np.asarray(pulses), charge, \
        np.asarray(excl), lats


def doms(case):
    return sorted({tuple(p) for p in case['pulses']} |
                  {tuple(p) for p in case.get('excl', ())} | {(1, 40, 7)} |
                  ({(0, 35, 58), (1, 79, 19)} if case.get('rel') else set()))


def main_latent(case, lats):
    return lats[1] if case['kind'] == 'systematic' else lats[0]


def mixture(env, case, lat, at):
    """Documented mixture: [(mu, sigma, r, weight)], times in microseconds."""
    nm, nc = case.get('nm', 2), sx.N_CHARGE[case['charge']]
    v = [[lat(*(at + (nc + j * nm + k,))) for k in range(nm)]
         for j in range(4)]
    w = [sx.elu(env, 1 + x) + 1.00001 for x in v[3]]
    tot = sum(w)
    return [(1 + v[0][k], sx.elu(env, 2 + v[1][k]) + 1.001,
             sx.elu(env, 1 + v[2][k]) + 1.001, w[k] / tot)
            for k in range(nm)]


def excluded(env, case, par, excl, mix, at):
    """Excluded probability of every component at one DOM."""
    out = []
    for mu, s, r, w in mix:
        tot = 0
        for k, i in enumerate(case.get('excl', ())):
            if tuple(i) != tuple(at):
                continue
            a, b = [(t - par[at[0], 6]) / 1000 for t in excl[k]]
            c = sx.gauss_cdf(env, b, mu, s, r) - sx.gauss_cdf(
                env, a, mu, s, r)
            tot = tot + sx.clip01(env, c)
        out.append(sx.clip01(env, tot))
    return out


def expected_charge(env, case, par, lat, at, excluded_sum):
    from egenerator.utils import detector
    c = env.fn('exp', lat(*(at + (0,))))
    if case.get('scale'):
        c = c * par[at[0], 5] / 10000
    if case.get('rel'):
        c = c * float(np.asarray(detector.rel_dom_eff)[at[1], at[2]])
    if case.get('eff'):
        c = c * par[at[0], case['eff']]
    if case.get('excl'):
        c = c * (1 - excluded_sum + 0.001)
    return c + 1e-7


def components(env, case):
    """The mixture is a valid density for any output of the network."""
    out, par, pulses, charge, excl, lats = run(env, case)
    pre = 'quantile_' if case['kind'] == 'quantiles' else ''
    nm = case.get('nm', 2)
    ats = [(k,) for k in range(len(pulses))] if pre else doms(case)
    for at in ats[:2]:
        w = [out[pre + 'latent_var_scale'][at + (k,)] for k in range(nm)]
        env.eq(sum(w), 1, 'weights sum to one')
        for k in range(nm):
            env.check(w[k] > 0, 'weights are positive')
            env.check(out[pre + 'latent_var_sigma'][at + (k,)] > 0,
                      'widths are positive')
            env.check(out[pre + 'latent_var_r'][at + (k,)] > 0,
                      'asymmetries are positive')


def pulse_pdf(env, case):
    out, par, pulses, charge, excl, lats = run(env, case)
    lat = main_latent(case, lats)
    pdf = out['pulse_pdf']
    env.check(tuple(pdf.shape) == (len(pulses),), 'one value per pulse')
    for i, at in enumerate(case['pulses']):
        at = tuple(at)
        mix = mixture(env, case, lat, at)
        if case.get('noswap'):
            got = [out['latent_var_mu'][at + (k,)] for k in range(len(mix))]
            a, b = mix[0][0], mix[1][0]
            env.eq(got, [env.ite(a <= b, a, b), env.ite(a <= b, b, a)],
                   'component means are in ascending order')
            mix = [(u,) + m[1:] for u, m in zip(got, mix)]
        t = (pulses[i, 1] - par[at[0], 6]) / 1000
        ex = excluded(env, case, par, excl, mix, at) if case.get('excl') \
            else [0] * len(mix)
        want = 0
        for (mu, s, r, w), e in zip(mix, ex):
            if case.get('excl'):
                w = w / (1 - e + 0.001)
            want = want + w * sx.gauss(env, t, mu, s, r)
        env.eq(pdf[i], want, 'density at the time since the vertex')


def quantile_pdf(env, case):
    out, par, pulses, charge, excl, lats = run(env, case)
    from egenerator.utils import detector
    fc, nm = lats[1], case.get('nm', 2)
    pdf = out['pulse_quantile_pdf']
    env.check(tuple(pdf.shape) == (len(pulses),), 'one value per pulse')
    for i, at in enumerate(case['pulses']):
        dom = np.asarray(detector.x_coords)[at[1], at[2]]
        d = [float(dom[k]) - par[at[0], k] for k in range(3)]
        t0 = env.fn('sqrt', sum(v * v for v in d)) / 0.22103046286329384
        v = [[fc(i, j * nm + k) for k in range(nm)] for j in range(4)]
        w = [sx.elu(env, 1 + x) + 1.00001 for x in v[3]]
        want = 0
        t = (pulses[i, 1] - par[at[0], 6]) / 1000
        for k in range(nm):
            mu = t0 / 1000 + 0.1 + 0.1 * v[0][k]
            s = sx.elu(env, 0.3 + 0.1 * v[1][k]) + 1.001
            r = sx.elu(env, 0.001 * v[2][k]) + 1.001
            want = want + w[k] / sum(w) * sx.gauss(env, t, mu, s, r)
        env.eq(pdf[i], want, 'density at the time since the vertex')


def charges(env, case):
    out, par, pulses, charge, excl, lats = run(env, case)
    lat = main_latent(case, lats)
    q = case['charge']
    env.check(tuple(out['dom_charges'].shape) == (NB,) + sx.DOM + (1,),
              'one charge per DOM')
    for at in doms(case):
        mu = out['dom_charges'][at + (0,)]
        ex = out['dom_cdf_exclusion_sum'][at + (0,)] if case.get('excl') \
            else None
        env.eq(mu, expected_charge(env, case, par, lat, at, ex),
               'expected charge')
        var = out['dom_charges_variance'][at + (0,)]
        if q == 'negative_binomial':
            a = out['dom_charges_alpha'][at + (0,)]
            env.eq(a, sx.elu(env, lat(*(at + (1,))) - 5) + 1.000001,
                   'over-dispersion')
            env.check(a > 0, 'over-dispersion is positive')
            env.eq(var, mu + a * mu * mu, 'variance')
        elif q is not True:
            env.eq(var, mu, 'variance')
        else:
            s = out['dom_charges_sigma'][at + (0,)]
            r = out['dom_charges_r'][at + (0,)]
            sc = sx.elu(env, 0.1 * lat(*(at + (1,))) - 2) + 1.9
            env.eq(s, env.fn('sqrt', env.ite(mu < 1e-4, 1e-4, mu)) * sc,
                   'width of the charge distribution')
            env.eq(r, sx.elu(env, 0.01 * lat(*(at + (2,))) - 2) + 1.9,
                   'asymmetry of the charge distribution')
            t = charge[at + (0,)]
            u = s * (1 + r) / 2
            env.eq(var, env.ite(t > 5, u * u, mu + 1e-7), 'variance')
        u = out['dom_charges_unc'][at + (0,)]
        env.eq(u * u, var, 'uncertainty is the root of the variance')


def positive(env, case):
    """Expected charges and variances are positive."""
    out, par, pulses, charge, excl, lats = run(env, case)
    q = case['charge']
    for at in doms(case)[:1]:
        mu = out['dom_charges'][at + (0,)]
        env.check(mu > 0, 'expected charge is positive')
        if q != 'negative_binomial' or not case.get('excl'):
            env.check(out['dom_charges_variance'][at + (0,)] > 0,
                      'variance is positive')
        if 'dom_cdf_exclusion' in out:
            for k in range(2):
                p = out['dom_cdf_exclusion'][at + (k,)]
                env.check(p >= 0, 'excluded probability is not negative')
                env.check(p <= 1, 'excluded probability is at most one')


def exclusion(env, case):
    """Excluded probabilities of the components."""
    out, par, pulses, charge, excl, lats = run(env, case)
    lat = main_latent(case, lats)
    for at in doms(case):
        mix = mixture(env, case, lat, at)
        got = [out['dom_cdf_exclusion'][at + (k,)] for k in range(len(mix))]
        env.eq(got, excluded(env, case, par, excl, mix, at),
               'excluded probability of a component')
        env.eq(out['dom_cdf_exclusion_sum'][at + (0,)],
               sx.clip01(env, sum(
                   p * out['latent_var_scale'][at + (k,)]
                   for k, p in enumerate(got))),
               'excluded probability of the mixture')


def charge_pdf(env, case):
    """log likelihood of the measured charge."""
    out, par, pulses, charge, excl, lats = run(env, case)
    q = case['charge']
    for at in doms(case):
        n = charge[at + (0,)]
        got = out['dom_charges_log_pdf_values'][at + (0,)]
        mu = out['dom_charges'][at + (0,)]
        log, lg = (lambda v: env.fn('log', v)), (
            lambda v: env.fn('lgamma', v))
        if q is True:
            s = out['dom_charges_sigma'][at + (0,)]
            r = out['dom_charges_r'][at + (0,)]
            want = env.ite(n > 5, log(sx.gauss(env, n, mu, s, r) + 1e-7),
                           n * log(mu + 1e-7) - mu)
        else:
            a = out['dom_charges_alpha'][at + (0,)]
            want = lg(n + 1 / a) - lg(1 / a) - log(1 + a * mu) / a \
                + n * (log(a * mu) - log(1 + a * mu))
        env.eq(got, want, 'log likelihood of the charge')


def sizes(env, case):
    """A network of the wrong size is refused."""
    kind = case['kind']
    k = 'fc_num_filters_list' if kind == 'quantiles' else \
        'num_filters_list_2' if kind == 'systematic' else 'num_filters_list'
    right = sx.config(kind, case)[k][-1]
    n = env.choose('filters', 1, 20)
    m = sx.build(kind, dict(case, override={k: [int(n)]}))
    import tensorflow as tf
    nl = int(n)

    def get():
        for net in m._nets:
            net.out = tf.zeros((NB,) + sx.DOM + (
                net is m._nets[-1] and kind != 'quantiles' and max(nl, 6) or 6,),
                dtype=tf.float64)
        if kind == 'quantiles':
            m._nets[1].out = tf.zeros((1, nl), dtype=tf.float64)
        par = np.ones((NB, m.num_parameters))
        par = tf.constant(par)
        return m.get_tensors({
            'x_parameters': par,
            'x_pulses': tf.ones((1, 3), dtype=tf.float64),
            'x_pulses_ids': tf.zeros((1, 3), dtype=tf.int64),
            'x_dom_charge': tf.ones((NB,) + sx.DOM + (1,),
                                    dtype=tf.float64)}, is_training=False)
    if nl == right and case['nm'] >= 2:
        env.check(True, 'right size')
    else:
        env.raises(ValueError, get, 'wrong number of network outputs')


def names(env, case):
    """Names and indices of the parameters of a source."""
    m = sx.build(case['kind'], case)
    want = list(sx.BASE)
    if case['kind'] == 'segment':
        want += ['length', 'stochasticity']
    want += list(case.get('extra', ()))
    want += [f.format(i) for f, n in case.get('snow', ()) for i in range(n)]
    env.check(list(m.parameter_names) == want, 'parameter names')
    env.check(m.num_parameters == len(want), 'number of parameters')
    k = env.choose('k', 0, len(want) - 1)
    env.check(m.get_index(want[k]) == k, 'index of a name')
    env.check(m.get_name(k) == want[k], 'name of an index')


def case(kind, **kw):
    d = {'kind': kind, 'charge': 'negative_binomial', 'pulses': PULSES}
    d.update(kw)
    return d


EX = [[1, 3, 2], [0, 0, 0], [1, 3, 2], [0, 20, 20]]
SNOW = [['Sys{:02d}', 2], ['DOMEfficiency', 1]]
SYS = dict(snow=SNOW, eff=9)
B = ('2 events, 4 pulses (two at the same DOM), arbitrary network output per '
     'DOM and channel, arbitrary source parameters and times')
F = [M + c + '.get_tensors' for c in (
    'cascade.default.DefaultCascadeModel',
    'cascade.systematic.SystematicsCascadeModel',
    'cascade.charge_quantiles.ChargeQuantileCascadeModel',
    'track.stochastic_segment.StochasticTrackSegmentModel')]
CHARGES = [
    case('cascade'), case('cascade', charge=None, scale=True, rel=True),
    case('cascade', charge=True, excl=EX),
    case('cascade', excl=EX, glob=True, snow=SNOW, eff=9, scale=True),
    case('cascade', extra=['more'], rel=True, charge=True),
    case('cascade', excl=EX, pulses=[[0, 0, 0]]),
    case('systematic', scale=True, **SYS),
    case('systematic', charge=True, rel=True, **SYS),
    case('systematic', charge=None, snow=[['Sys{}', 2]]),
    case('quantiles', scale=True, rel=True), case('quantiles', charge=True),
    case('segment', rel=True), case('segment', charge=True, scale=True),
    case('segment', charge=None, glob=True, eff=11, snow=SNOW),
    case('segment', charge=True, rel=True, scale=True, glob=True, eff=11,
         snow=SNOW),
    case('systematic', rel=True, scale=True, **SYS),
    case('quantiles', rel=True, scale=True, glob=True, eff=9, snow=SNOW),
    case('cascade', charge=True, rel=True, scale=True, glob=True, eff=10,
         extra=['more'], snow=SNOW, excl=EX)]
NAMES = [case(k, snow=s, **e) for k in (
    'cascade', 'quantiles', 'systematic', 'segment') for s in (
    SNOW, [['Phase{:02d}', 2], ['Amp{:02d}', 3], ['Abs', 1]]) for e in (
    ({}, {'extra': ['zeta', 'alpha']}) if k in ('cascade', 'systematic')
    else ({},))]
TIMES = [
    case('cascade'), case('cascade', nm=3), case('cascade', charge=True),
    case('cascade', excl=EX), case('cascade', noswap=True),
    case('cascade', charge=None, excl=[[1, 3, 2]]),
    case('cascade', excl=EX, pulses=[[0, 0, 0]]),
    case('cascade', excl=[[0, 0, 0]], pulses=[[1, 0, 0]]),
    case('systematic', **SYS), case('systematic', charge=None, **SYS),
    case('segment'), case('segment', charge=True, nm=3)]
HARNESSES = [
    Harness('components', components, [
        case('cascade'), case('cascade', nm=3), case('cascade', excl=EX),
        case('systematic', **SYS), case('segment'), case('quantiles')], F,
        B),
    Harness('charges', charges, CHARGES, F, B),
    Harness('exclusion', exclusion, [c for c in CHARGES if 'excl' in c], F,
            B),
    Harness('positive', positive, CHARGES, F, B),
    Harness('charge_pdf', charge_pdf, [
        c for c in CHARGES if c['charge'] is not None], F, B),
    Harness('pulse_pdf', pulse_pdf, TIMES, F, B),
    Harness('quantile_pdf', quantile_pdf, [
        case('quantiles'), case('quantiles', nm=3, charge=True),
        case('quantiles', nm=2, local=2), case('quantiles', charge=None, addq=True)], F, B),
    Harness('names', names, NAMES, F, 'every index of 10 to 17 parameters'),
    Harness('sizes', sizes, [case(k, nm=n, **(SYS if k == 'systematic'
                                              else {}))
                             for k in ('cascade', 'systematic', 'quantiles',
                                       'segment') for n in (2,)] + [
        case('cascade', nm=1), case('segment', nm=1)], F,
        'every number of network outputs from 1 to 20'),
]
ASSUMPTIONS = ['the neural network is arbitrary: its outputs are unknowns',
               'window start <= window end; tf.debugging.Assert has no effect '
               'on the values']
