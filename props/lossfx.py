"""Loss modules on a small grid of DOMs (the loss does not know its size)."""
import numpy as np
import tensorflow as tf
from symx import tfx
from props import fx
from egenerator.data.tensor import DataTensorList
from egenerator.loss.default import DefaultLossModule

NB, NS, ND = 2, 2, 2
GRID = (NB, NS, ND)
IDS = [[0, 0, 0], [1, 1, 0], [0, 1, 1], [1, 1, 0], [0, 0, 0]]
EPS, EPS_NB = 1e-7, 5e-5
NAMES = ['unbinned_extended_pulse_llh', 'unbinned_pulse_time_llh',
         'unbinned_pulse_and_dom_charge_pdf', 'unbinned_charge_quantile_pdf',
         'dom_and_event_charge_pdf', 'negative_binomial_charge_pdf',
         'negative_binomial_event_charge_pdf', 'normalized_dom_charge_pdf']
KEYS = ['dom_charges', 'dom_charges_variance', 'dom_charges_log_pdf_values',
        'pulse_pdf', 'pulse_quantile_pdf']


def tensors(case):
    ts = [fx.tensor('x_parameters', [None, 2], trafo=True)]
    if case.get('mask') is not False:
        ts.append(fx.tensor('x_dom_exclusions', [None, NS, ND, 1],
                            'data', dtype='bool', exists=bool(case.get('mask'))))
    if case.get('time') is not None:
        ts.append(fx.tensor('x_time_exclusions', [None, 2], 'data',
                            exists=bool(case['time'])))
    return DataTensorList(ts)


def module(case, cls=DefaultLossModule):
    config = dict(loss_function_name=case['loss'], float_precision='float64',
                  add_normalization_term=case.get('norm', False),
                  min_charge_quantile=case.get('low'),
                  max_charge_quantile=case.get('high'))
    m = cls()
    m.configure(config=config)
    return m


FNS = {}


def traced(case, m=None, tag=''):
    key = tag + repr(sorted(case.items(), key=str))
    if key in FNS:
        return FNS[key]
    m = m or module(case)
    ts = tensors(case)
    ids = tf.constant(np.asarray(
        case.get('ids', IDS), dtype=np.int64).reshape(-1, 3))

    def fn(pulses, charge, mask, par, *res):
        batch = {'x_pulses': pulses, 'x_pulses_ids': ids,
                 'x_dom_charge': charge, 'x_parameters': par,
                 'x_dom_exclusions': mask > 0.5}
        kw = {}
        if case.get('tensor'):
            # the parameters are those of another tensor
            kw['parameter_tensor_name'] = case['tensor']
            batch[case['tensor']], batch['x_parameters'] = par, par + 1.
        r = dict(zip(KEYS, res))
        if case.get('time'):
            r['dom_cdf_exclusion_sum'] = tf.zeros_like(charge)
        out = m.get_loss(batch, r, ts, case.get('model'),
                         reduce_to_scalar=case.get('scalar', True),
                         normalize_by_total_charge=case.get('total', False),
                         sort_loss_terms=case.get('sort', False), **kw)
        return out if isinstance(out, (list, tuple)) else [out]
    FNS[key] = tfx.Fn(fn, dtype='float64', eager=False)
    return FNS[key]


def arrays(env, case, tag=''):
    """Data and (positive) model results."""
    n = len(case.get('ids', IDS))
    a = {'pulses': env.array('pulse' + tag, (n, 3), pos=True, smp=(0.1, 3)),
         'charge': env.array('charge' + tag, GRID + (1,), nonneg=True,
                             smp=(0, 3)),
         'mask': env.array('mask' + tag, GRID + (1,), lo=0, hi=1,
                           smp=(0, 1)),
         'par': env.array('par' + tag, (NB, 2))}
    for k in KEYS[:2]:
        a[k] = env.array(k + tag, GRID + (1,), pos=True, smp=(0.2, 2))
    a[KEYS[2]] = env.array(KEYS[2] + tag, GRID + (1,), smp=(-2, 0))
    for k in KEYS[3:]:
        a[k] = env.array(k + tag, (n,), nonneg=True, smp=(0, 1))
    return a


def call(env, case, a, m=None, tag=''):
    f = traced(case, m, tag)
    return f(env, a['pulses'], a['charge'], a['mask'], a['par'],
             *[a[k] for k in KEYS])


def log_faculty(env, x):
    return env.fn('lgamma', env.ite(x + 1 < 2, 2, x + 1))


def log_nb(env, n, mu, a):
    log, lg = (lambda v: env.fn('log', v)), (lambda v: env.fn('lgamma', v))
    return lg(n + 1 / a) - lg(1 / a) - log(1 + a * mu) / a \
        + n * (log(a * mu) - log(1 + a * mu))


def terms(env, case, a):
    """Documented terms: {'pulse': [...], 'dom': {}, 'event': [...]}."""
    a = {k: np.asarray(v) for k, v in a.items()}
    ids = case.get('ids', IDS)
    doms = list(np.ndindex(*GRID))
    log = lambda v: env.fn('log', v)                        # noqa: E731
    q, kind = a['pulses'], case['loss']
    one = (lambda d: env.ite(a['mask'][d + (0,)] > 0.5, 1, 0)) \
        if case.get('mask') else (lambda d: 1)
    m = {d: one(d) for d in doms}
    true = {d: a['charge'][d + (0,)] for d in doms}
    pred = {d: a['dom_charges'][d + (0,)] for d in doms}
    var = {d: a['dom_charges_variance'][d + (0,)] for d in doms}
    llh = {d: a['dom_charges_log_pdf_values'][d + (0,)] for d in doms}
    pulse, dom, event = [0] * len(ids), {d: 0 for d in doms}, [0] * NB
    norm = case.get('norm')

    def total(v, b, weight=True):
        return sum([v[d] * (m[d] if weight else 1) for d in doms
                    if d[0] == b])
    if kind in NAMES[:3]:
        for k in range(len(ids)):
            pulse[k] = -q[k, 0] * log(a['pulse_pdf'][k] + EPS)
            if norm:
                pulse[k] = pulse[k] + log_faculty(env, q[k, 0])
    if kind == NAMES[0]:
        for d in doms:
            p, t = pred[d] * m[d], true[d] * m[d]
            dom[d] = p - t * log(p + EPS)
            if norm:
                dom[d] = dom[d] + log_faculty(env, t)
    elif kind == NAMES[2]:
        for d in doms:
            dom[d] = -llh[d] * m[d]
            if norm:
                dom[d] = dom[d] + log_faculty(env, true[d])
    elif kind == NAMES[3]:
        for k in range(len(ids)):
            v = -log(a['pulse_quantile_pdf'][k] + EPS)
            if case.get('low') is not None:
                v = env.ite(q[k, 2] < case['low'], 0, v)
            if case.get('high') is not None:
                v = env.ite(q[k, 2] > case['high'], 0, v)
            pulse[k] = v
    elif kind == NAMES[4]:
        for d in doms:
            dom[d] = -llh[d] * m[d]
        for b in range(NB):
            x, mu, v = total(true, b), total(pred, b), total(var, b)
            event[b] = (x - mu) * (x - mu) / v / 2 + log(
                env.fn('sqrt', v)) + log(2 * env.pi()) / 2
    elif kind == NAMES[5]:
        for d in doms:
            al = (var[d] - pred[d]) / (pred[d] * pred[d] + EPS_NB)
            al = env.ite(al < EPS_NB, EPS_NB, al)
            dom[d] = -log_nb(env, true[d], pred[d], al) * m[d]
    elif kind == NAMES[6]:
        for b in range(NB):
            x, mu, v = total(true, b), total(pred, b), total(var, b)
            al = (v - mu) / (mu * mu)
            al = env.ite(al < EPS_NB, EPS_NB, al)
            event[b] = -log_nb(env, x, mu, al)
    elif kind == NAMES[7]:
        for d in doms:
            dom[d] = -true[d] * m[d] * log(
                pred[d] / total(pred, d[0], False) + EPS_NB)
    return pulse, dom, event


def cases(**kw):
    out = []
    for n in NAMES:
        c = dict(loss=n, **kw)
        out.append(c)
    return out
