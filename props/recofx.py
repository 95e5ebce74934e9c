"""A real SourceManager around stub models, losses and data."""
import itertools
import numpy as np
import tensorflow as tf
from egenerator.manager.source import SourceManager
from egenerator.data.tensor import DataTensorList
from props import fx


class DataHandler(object):
    def __init__(self, n, name='x_parameters'):
        self.tensors = DataTensorList([
            fx.tensor(name, [None, n], 'label', trafo=True),
            fx.tensor('x_seed', [None, n], 'misc'),
            fx.tensor('a_aux', [None, 1], 'data')])
        self.sig = tuple(tf.TensorSpec(t.shape, tf.float64)
                         for t in self.tensors.list)

    def get_data_set_signature(self):
        return self.sig


class ProbeModel(object):
    """get_tensors hands its inputs on; the loss module reads them."""

    def __init__(self, index, data_trafo, n):
        self.index, self.data_trafo = index, data_trafo
        self.num_parameters = n
        self.parameter_names = ['p%d' % i for i in range(n)]
        self.trainable_variables = []
        self.calls = []

    def get_index(self, name):
        return self.parameter_names.index(name)

    def get_tensors(self, data_batch_dict, is_training,
                    parameter_tensor_name='x_parameters'):
        self.calls.append((is_training, parameter_tensor_name,
                           sorted(data_batch_dict)))
        return {'params': data_batch_dict[parameter_tensor_name],
                'aux': data_batch_dict['a_aux'],
                'seed': data_batch_dict['x_seed']}


class ProbeLoss(object):
    """sum_ij w_ij p_ij + u_j p_ij^2 (per model k: times c_k) + aux.

    ``w``: dict of tensors set by the traced function."""

    def __init__(self):
        self.kwargs = []
        self.w = None

    def get_loss(self, data_batch_dict, result_tensors, tensors, model,
                 parameter_tensor_name='x_parameters',
                 reduce_to_scalar=True, normalize_by_total_charge=None,
                 sort_loss_terms=None):
        self.kwargs.append((parameter_tensor_name, reduce_to_scalar,
                            normalize_by_total_charge, sort_loss_terms))
        p = result_tensors['params']
        k = model.index
        w, u = self.w['w'][k], self.w['u'][k]
        # quadratic with cross terms: p^T u p + w.p per event
        lin = tf.reduce_sum(p * w, axis=1)
        quad = tf.reduce_sum(tf.matmul(p, u) * p, axis=1)
        aux = result_tensors['aux'][:, 0]
        if reduce_to_scalar:
            return tf.reduce_sum(lin + quad + aux)
        return [tf.reduce_sum(aux), lin, quad]


def loss_value(env, ps, w, u, aux):
    """The same loss on terms; ps [n_ev][n], one entry per model."""
    tot = 0
    for k in range(len(w)):
        for e, p in enumerate(ps):
            tot = tot + aux[e]
            for i in range(len(p)):
                tot = tot + w[k][i] * p[i]
                for j in range(len(p)):
                    tot = tot + p[j] * u[k][j][i] * p[i]
    return tot


def manager(n, models, data_trafo, handler=None, name='x_parameters'):
    m = SourceManager()
    fx.component(m, sub={'data_handler': handler or DataHandler(n, name)})
    ms = [ProbeModel(k, data_trafo, n) for k in range(models)]
    for k, x in enumerate(ms):
        m._sub_components['models_%04d' % k] = x
    return m


def trafo(n, mean, std, norm, log, name='x_parameters'):
    return fx.transformer(
        [fx.tensor(name, [None, n], 'label', trafo=True,
                   trafo_log=log)],
        {name + '_mean': mean, name + '_std': std}, norm=norm)


def fits(n):
    """All non-empty fit masks of n parameters."""
    return [list(f) for f in itertools.product([False, True], repeat=n)
            if any(f)]
