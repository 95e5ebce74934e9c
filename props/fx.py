"""Fixtures: real objects of the code under test, put together without their
files (data models, checkpoints).  Everything replaced here is a stub and is
listed in DESIGN.md."""
import numpy as np
import tensorflow as tf
from egenerator.settings import version_control
from egenerator.data.tensor import DataTensor, DataTensorList
from egenerator.data.trafo import DataTransformer
from egenerator.manager.component import Configuration
from symx import npx

# git is asked once per Configuration(); the answer does not matter here
version_control.get_git_infos = lambda *a, **k: ('s', 'sha', 'origin', False)


def conf(obj, **kw):
    d = dict(class_string=type(obj).__module__ + '.' + type(obj).__name__,
             settings={})
    d.update(kw)
    return Configuration(**d)


def component(obj, data=None, sub=None, untracked=None, **kw):
    """Mark a real component as configured, with the given data."""
    obj._configuration = conf(obj, **kw)
    obj._data = {} if data is None else data
    obj._sub_components = {} if sub is None else sub
    obj._untracked_data = {} if untracked is None else untracked
    obj._is_configured = True
    return obj


def tensor(name, shape, typ='data', dtype='float64', **kw):
    return DataTensor(name, shape, typ, dtype, **kw)


def transformer(tensors, data, norm=1e-6, np_dtype=np.float64,
                tf_dtype=tf.float64):
    d = {'tensors': DataTensorList(tensors), 'norm_constant': norm,
         'np_float_dtype': np_dtype, 'tf_float_dtype': tf_dtype,
         'creation_time': 'now'}
    d.update(data)
    return component(DataTransformer(), d)
