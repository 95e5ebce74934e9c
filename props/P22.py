"""Noise model: uniform in time, rates of the DOMs, excluded windows."""
import numpy as np
from symx.runner import Harness
from props import srcfx as sx
from props.P20 import M
from props import P21

PULSES = [[0, 0, 0], [1, 3, 2], [0, 85, 59], [1, 3, 2], [1, 20, 7]]
OUT = ['dom_charges', 'dom_charges_variance', 'dom_charges_unc',
       'dom_charges_alpha', 'pulse_pdf', 'pdf_constant', 'pdf_time_window',
       'dom_cdf_exclusion', 'dom_cdf_exclusion_sum']
EX = [[1, 3, 2], [0, 0, 0], [1, 3, 2], [0, 20, 20]]
NB = 2


def setup(env, cs):
    par = env.array('par', (NB, len(sx.BASE)))
    pulses, charge, excl, tw = P21.data(env, cs)
    t = np.array(tw)
    for b in range(NB):
        t[b, 1] = t[b, 0] + env.real('livetime%d' % b, pos=True,
                                     smp=(0.5, 3))
    tw = env.wrap(t)
    return par, pulses, charge, excl, tw, sx.latents(env, 'noise', cs, NB)


def fraction(env, cs, tw, excl, at):
    """Excluded fraction of the time window at one DOM."""
    tot = 0
    for k, i in enumerate(cs.get('excl', ())):
        if tuple(i) != tuple(at):
            continue
        a, b = tw[at[0]][0], tw[at[0]][1]
        e = [env.ite(v < a, a, env.ite(v > b, b, v)) for v in excl[k]]
        tot = tot + (e[1] - e[0]) / (b - a)
    return env.ite(tot > 1, 1, tot)


def doms(cs):
    return sorted({tuple(p) for p in cs['pulses']} |
                  {tuple(p) for p in cs.get('excl', ())} | {(1, 40, 7)})


def charges(env, cs):
    from egenerator.utils import detector
    a = setup(env, cs)
    out = P21.call(env, cs, OUT, *a)
    par, pulses, charge, excl, tw, (v,) = a
    tw, excl, v = [np.asarray(x) for x in (tw, excl, v)]
    scale = sx.elu(env, sx.elu(env, v[0]) + 1.01) + 1.01
    alpha = sx.elu(env, sx.elu(env, v[1]) + 1.01 - 5) + 1.000001
    env.eq(out['dom_charges_alpha'][0, 0, 0, 0], alpha, 'over-dispersion')
    env.check(alpha > 0, 'over-dispersion is positive')
    for at in doms(cs):
        rate = float(np.asarray(detector.dom_noise_rates)[at[1:]])
        mu = rate * (tw[at[0], 1] - tw[at[0], 0]) * scale
        if 'excl' in cs:
            mu = mu * (1 - fraction(env, cs, tw, excl, at) + 0.001)
        mu = mu + 1e-7
        got = out['dom_charges'][at + (0,)]
        env.eq(got, mu, 'expected number of noise pulses')
        env.check(got > 0, 'expected number is positive')
        env.eq(out['dom_charges_variance'][at + (0,)], got + alpha * got
               * got, 'variance')
        env.eq(out['dom_charges_unc'][at + (0,)] ** 2,
               out['dom_charges_variance'][at + (0,)], 'uncertainty')


def pdf(env, cs):
    a = setup(env, cs)
    out = P21.call(env, cs, OUT, *a)
    par, pulses, charge, excl, tw, (v,) = a
    tw, excl = np.asarray(tw), np.asarray(excl)
    env.check(tuple(out['pulse_pdf'].shape) == (len(cs['pulses']),),
              'one value per pulse')
    for k, at in enumerate(cs['pulses']):
        live = tw[at[0], 1] - tw[at[0], 0]
        f = fraction(env, cs, tw, excl, at) if 'excl' in cs else 0
        want = 1 / live / (1 - f + 0.001) if 'excl' in cs else 1 / live
        env.eq(out['pulse_pdf'][k], want, 'uniform density')
        env.check(out['pulse_pdf'][k] > 0, 'density is positive')
    for b in range(NB):
        env.eq(out['pdf_constant'][b], 1 / (tw[b, 1] - tw[b, 0]),
               'constant of the density')
        env.eq([out['pdf_time_window'][b, i] for i in range(2)], tw[b],
               'time window')


def exclusion(env, cs):
    a = setup(env, cs)
    out = P21.call(env, cs, OUT, *a)
    tw, excl = np.asarray(a[4]), np.asarray(a[3])
    for at in doms(cs):
        f = fraction(env, cs, tw, excl, at)
        for key in ('dom_cdf_exclusion', 'dom_cdf_exclusion_sum'):
            got = out[key][at + (0,)]
            env.eq(got, f, 'excluded fraction')
            env.check(env.and_(got >= 0, got <= 1), 'between zero and one')


def time_shift(env, cs):
    par, pulses, charge, excl, tw, lat = setup(env, cs)
    a = P21.call(env, cs, OUT, par, pulses, charge, excl, tw, lat)
    ts = [env.real('shift%d' % k) for k in range(NB)]
    q2, e2, w2 = [np.array(v) for v in (pulses, excl, tw)]
    for b in range(NB):
        w2[b] = w2[b] + ts[b]
    for k, at in enumerate(cs['pulses']):
        q2[k, 1] = q2[k, 1] + ts[at[0]]
    for k, at in enumerate(cs.get('excl', ())):
        e2[k] = e2[k] + ts[at[0]]
    w = env.wrap
    b = P21.call(env, cs, OUT, par, w(q2), charge, w(e2), w(w2), lat)
    for key in ('dom_charges', 'dom_charges_variance', 'pulse_pdf',
                'dom_cdf_exclusion_sum'):
        if key not in a:
            continue
        for at in (doms(cs) if key != 'pulse_pdf' else
                   [(k,) for k in range(len(cs['pulses']))]):
            P21.one(env, a[key], b[key], at, at, 'shifted: ' + key)


def independent(env, cs):
    """Other events do not matter, nor source parameters and pulses."""
    par, pulses, charge, excl, tw, lat = setup(env, cs)
    a = P21.call(env, cs, OUT, par, pulses, charge, excl, tw, lat)
    par2 = env.array('par2', (NB, len(sx.BASE)))
    pulses2, charge2, excl2, tw2 = P21.data(env, cs, 'other')
    e2, w2 = np.array(excl2), np.array(tw2)
    w2[1, 1] = w2[1, 0] + env.real('live_other', pos=True, smp=(0.5, 3))
    w2[0] = np.asarray(tw)[0]
    for k, at in enumerate(cs.get('excl', ())):
        if at[0] == 0:
            e2[k] = np.asarray(excl)[k]
    b = P21.call(env, cs, OUT, par2, pulses2, charge2, env.wrap(e2),
                 env.wrap(w2), lat)
    for key in ('dom_charges', 'dom_charges_variance', 'pulse_pdf',
                'dom_cdf_exclusion_sum'):
        if key not in a:
            continue
        for at in ([d for d in doms(cs) if d[0] == 0] if key != 'pulse_pdf'
                   else [(k,) for k, p in enumerate(cs['pulses'])
                         if p[0] == 0]):
            P21.one(env, a[key], b[key], at, at, 'other events: ' + key)


PLAIN = dict(kind='noise', pulses=PULSES)
EXCL = dict(kind='noise', pulses=PULSES, excl=EX)
FEW = dict(kind='noise', pulses=[[0, 3, 2], [0, 0, 0]], excl=EX)
F = [M + 'noise.default.DefaultNoiseModel.get_tensors']
B = ('2 events, 5 pulses, no or 4 exclusion windows (two on one DOM), '
     'arbitrary time windows, scale and over-dispersion variables')
HARNESSES = [
    Harness('charges', charges, [PLAIN, EXCL, FEW], F, B),
    Harness('pdf', pdf, [PLAIN, EXCL, FEW], F, B),
    Harness('exclusion', exclusion, [EXCL, FEW], F, B),
    Harness('time_shift', time_shift, [PLAIN, EXCL, FEW], F, B),
    Harness('independent', independent, [PLAIN, EXCL, FEW], F, B),
]
ASSUMPTIONS = ['window start <= window end and positive live time; '
               'tf.debugging.Assert has no effect on the values']
