"""Real source models on a stubbed network.

The network (``ConvNdLayers``/``FCLayers`` of the package tfscripts) is
replaced by arbitrary outputs (the latent variables): one unknown for every
DOM and channel.  What the model feeds into the network is recorded, so that
properties of the input can be stated as well.
"""
import numpy as np
import tensorflow as tf
from egenerator.model.source.cascade import default as cas
from egenerator.model.source.cascade import systematic as cas_sys
from egenerator.model.source.cascade import charge_quantiles as cas_q
from egenerator.model.source.cascade import dummy as cas_dummy
from egenerator.model.source.noise import default as noise
from egenerator.model.source.track import stochastic_segment as seg
from egenerator.utils import detector
from props import fx

CLASSES = {
    'cascade': cas.DefaultCascadeModel,
    'systematic': cas_sys.SystematicsCascadeModel,
    'quantiles': cas_q.ChargeQuantileCascadeModel,
    'segment': seg.StochasticTrackSegmentModel,
    'noise': noise.DefaultNoiseModel,
    'dummy': cas_dummy.DummyCascadeModel,
}
BASE = ['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time']
NORM = 1e-4
N_CHARGE = {None: 1, False: 1, True: 3, 'negative_binomial': 2}
DOM = (86, 60)


class Layers(object):
    """Stands in for the network: records its input, returns the latent."""
    nets = []

    def __init__(self, input_shape=None, **settings):
        self.n_in = input_shape[-1]
        self.out = None
        self.inputs = []
        Layers.nets.append(self)

    def __call__(self, x, is_training=None, keep_prob=None):
        self.inputs.append(x)
        if x.shape[-1] != self.n_in:
            raise ValueError('network was built for {} inputs, gets {}'
                             .format(self.n_in, x.shape[-1]))
        return [x, self.out]


def stub_network():
    for m in (cas, cas_sys, cas_q, seg):
        m.tfs.ConvNdLayers = Layers
        m.tfs.FCLayers = Layers


def means(n):
    return np.array([0.25 * ((k % 5) - 2) + 0.5 for k in range(n)])


def stds(n):
    return np.array([0.5 + 0.25 * (k % 4) for k in range(n)])


def config(kind, case):
    nm, q = case.get('nm', 2), case.get('charge', 'negative_binomial')
    nf = 4 * nm + N_CHARGE[q]
    c = dict(
        add_opening_angle=case.get('angle', False),
        add_dom_coordinates=case.get('coords', False),
        add_anisotropy_angle=case.get('aniso', False),
        num_local_vars=case.get('local', 0), filter_size_list=[[1, 1]],
        num_filters_list=[nf], use_dropout_list=False,
        use_batch_norm_list=False, activation_list=['elu'],
        use_residual_list=False, method_list=['convolution'], keep_prob=1.,
        estimate_charge_distribution=q, num_latent_models=nm,
        scale_charge=case.get('scale', False),
        scale_charge_by_relative_dom_efficiency=case.get('rel', False),
        scale_charge_by_global_dom_efficiency=case.get('glob', False),
        snowstorm_parameter_names=case.get('snow', []),
        prevent_mixture_component_swapping=case.get('noswap', False))
    if case.get('extra'):
        c['additional_label_names'] = list(case['extra'])
    if kind == 'systematic':
        for k in ('filter_size_list', 'num_filters_list', 'use_dropout_list',
                  'use_batch_norm_list', 'activation_list',
                  'use_residual_list', 'method_list'):
            c[k + '_2'] = c[k]
        c['num_filters_list'] = [3]
    if kind == 'quantiles':
        c['num_filters_list'] = [N_CHARGE[q] + 2]
        c['add_predicted_charge_to_latent_vars'] = case.get('addq', False)
        for k in ('use_dropout_list', 'activation_list',
                  'use_batch_norm_list', 'use_residual_list'):
            c['fc_' + k] = c[k]
        c['fc_num_filters_list'] = [4 * nm]
    for k in case.get('override', ()):
        c[k] = case['override'][k]
    return c


class Arr64(np.ndarray):
    """The model casts detector constants to single precision; keep them."""

    def astype(self, *a, **k):
        return np.array(self, dtype=np.float64)


def build(kind, case, name='m'):
    """A configured real model of the given kind."""
    Layers.nets = []
    stub_network()
    names = list(BASE)
    if kind == 'segment':
        names += ['length', 'stochasticity']
    if case.get('extra'):
        names += list(case['extra'])
    for fmt, num in case.get('snow', []):
        names += [fmt.format(i) for i in range(num)]
    n = max(len(names), 1)
    tr = case.get('log', [False] * 5 + [True] + [False] * (n - 6))
    ts = [fx.tensor('x_parameters', [None, n], trafo=True, trafo_log=tr)]
    if 'excl' in case:
        ts.append(fx.tensor('x_time_exclusions', [None, 2]))
        ts.append(fx.tensor('x_time_exclusions_ids', [None, 3],
                            dtype='int64'))
    trafo = fx.transformer(ts, {'x_parameters_mean': means(n),
                                'x_parameters_std': stds(n)}, norm=NORM)
    m = CLASSES[kind]()
    if m._untracked_data is None:
        m._untracked_data = {}
    conf, data, sub = m._configure_derived_class(
        config=config(kind, case), data_trafo=trafo, name=name)
    m._configuration, m._data, m._sub_components = conf, data, sub
    m._is_configured = True
    m._nets = list(Layers.nets)
    return m


def patched_constants():
    detector.x_coords = np.asarray(detector.x_coords).view(Arr64)
    detector.rel_dom_eff = np.asarray(
        detector.rel_dom_eff, dtype=np.float64).view(Arr64)
    detector.dom_noise_rates = np.asarray(
        detector.dom_noise_rates).view(Arr64)


def tensors_fn(kind, case, outputs):
    """Traced function: (parameters, pulses, charges, latents...) -> list."""
    m = build(kind, case)
    patched_constants()
    ids = np.asarray(case['pulses'], dtype=np.int64).reshape(-1, 3)
    ex = np.asarray(case.get('excl', []), dtype=np.int64).reshape(-1, 3)

    def fn(par, pulses, charge, excl, tw, *lat):
        if kind == 'noise':
            m._untracked_data['local_vars'] = lat[0]
        if case.get('local'):
            m._untracked_data['local_vars'] = lat[-1]
        for net, out in zip(m._nets, lat):
            net.out = out
            net.inputs = []
        batch = {'x_parameters': par, 'x_pulses': pulses,
                 'x_pulses_ids': tf.constant(ids), 'x_dom_charge': charge,
                 'x_time_window': tw, 'x_time_exclusions': excl,
                 'x_time_exclusions_ids': tf.constant(ex)}
        r = m.get_tensors(batch, is_training=False)
        if not isinstance(r, dict):
            raise TypeError('not a dictionary')
        r = dict(r)
        for i, net in enumerate(m._nets):
            if net.inputs:
                r['input%d' % i] = net.inputs[0]
        fn.keys = sorted(r)
        return [r[k] for k in outputs if k in r]
    fn.model = m
    return fn


def latents(env, kind, case, nb):
    c = config(kind, case)
    if kind == 'noise':
        return [env.array('v', (2,), smp=(-2, 2))]
    if kind == 'dummy':
        return []
    n = c['num_filters_list'][-1]
    lat = [env.lazy('lat', (nb,) + DOM + (n,), lo=-2, hi=2)]
    if kind == 'systematic':
        lat.append(env.lazy('lat2', (nb,) + DOM + (
            c['num_filters_list_2'][-1],), lo=-2, hi=2))
    if kind == 'quantiles':
        lat.append(env.array('fc', (len(case['pulses']), c[
            'fc_num_filters_list'][-1]), smp=(-2, 2)))
    if case.get('local'):
        lat.append(env.lazy('local', (1,) + DOM + (case['local'],), lo=-2,
                            hi=2))
    return lat


def elu(env, v):
    return env.ite(v > 0, v, env.fn('exp', v) - 1)


def clip01(env, v):
    return env.ite(v < 0, 0, env.ite(v > 1, 1, v))


def gauss(env, x, mu, s, r):
    """Asymmetric Gaussian density."""
    n = 2 / (env.fn('sqrt', 2 * env.pi()) * s * (r + 1))
    d = (x - mu) / s
    return n * env.ite(x < mu, env.fn('exp', -d * d / 2),
                       env.fn('exp', -(d / r) * (d / r) / 2))


def gauss_cdf(env, x, mu, s, r):
    d = (x - mu) / (env.fn('sqrt', env.wrap([2.])[0]) * s)
    return env.ite(x < mu, 1 + env.fn('erf', d),
                   1 + r * env.fn('erf', d / r)) / (r + 1)
