"""A real data handler on top of data modules that return given arrays."""
import types
import numpy as np
import pandas as pd
from props import fx
from egenerator.data.tensor import DataTensorList
from egenerator.data.handler.modular import ModuleDataHandler

KINDS = ('data', 'label', 'misc', 'weight')


class Store(object):
    """Stands in for pandas.HDFStore: the tables of a file by name."""
    tables = {}

    def __init__(self, name, mode='a', **kwargs):
        self.name, self.is_open = name, True

    def __getitem__(self, k):
        if not self.is_open:
            raise ValueError('file is closed')
        return self.tables[k]

    get = select = __getitem__

    def __contains__(self, k):
        return k in self.tables or k.lstrip('/') in self.tables

    def keys(self):
        return ['/' + k for k in self.tables]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.is_open = False


def pandas(store):
    """The pandas module with another HDFStore."""
    m = types.ModuleType('pandas')
    m.__dict__.update({k: v for k, v in pd.__dict__.items()
                       if not k.startswith('__')})
    m.HDFStore = store
    m.read_hdf = lambda name, key=None, **kw: store(name, 'r')[key]
    return m


class Given(object):
    """Data module: returns the given number of events and arrays."""

    def __init__(self):
        self.result = (None, None)
        self.calls = []

    def _get(self, source, *args, **kwargs):
        self.calls.append((source, args, kwargs))
        return self.result

    def get_data_from_hdf(self, *args, **kwargs):
        return self._get('hdf', *args, **kwargs)

    def get_data_from_frame(self, *args, **kwargs):
        return self._get('frame', *args, **kwargs)

    def create_data_from_frame(self, *args, **kwargs):
        return self._get('create', *args, **kwargs)

    def write_data_to_frame(self, data, frame, *args, **kwargs):
        self.calls.append(('write', data, frame, args, kwargs))


class Mask(object):
    """Filter module: returns the given mask."""

    def __init__(self):
        self.mask = None
        self.calls = []

    def get_event_filter_mask_from_hdf(self, *args, **kwargs):
        self.calls.append(('hdf', args, kwargs))
        return self.mask

    def get_event_filter_mask_from_frame(self, *args, **kwargs):
        self.calls.append(('frame', args, kwargs))
        return self.mask


def pair(name, n, exists=True, dtype='float64', width=2):
    """A vector valued tensor and its indices."""
    return [fx.tensor(name, [None, width], 'data', dtype, exists=exists,
                      vector_info={'type': 'value',
                                   'reference': name + '_ids'}),
            fx.tensor(name + '_ids', [None, n], 'data', 'int32',
                      exists=exists, vector_info={'type': 'index',
                                                  'reference': name})]


SETS = {
    # tensor names of the modules are interleaved on purpose
    'full': dict(data=pair('x_pulses', 2) + pair('a_times', 1) + pair(
        'x_exclusions', 1, exists=False) + [
            fx.tensor('x_charge', [None, 2, 1], 'data'),
            fx.tensor('x_mask', [None, 2], 'data', 'bool', exists=False)],
        label=[fx.tensor('m_labels', [None, 3], 'label')],
        misc=[fx.tensor('b_seed', [None, 1], 'misc'),
              fx.tensor('z_seed', [None, 2], 'misc')],
        weight=[fx.tensor('weights', [None], 'weight')]),
    'small': dict(data=pair('x_pulses', 2) + [
        fx.tensor('x_charge', [None, 1], 'data')],
        label=[], misc=[fx.tensor('a_seed', [None, 2], 'misc')], weight=[]),
    'plain': dict(data=[fx.tensor('x_charge', [None, 1], 'data')],
                  label=[fx.tensor('labels', [None, 2], 'label'),
                         fx.tensor('a_label', [None], 'label',
                                   exists=False)], misc=[], weight=[]),
    'mixed': dict(data=pair('x_pulses', 2, width=1) + pair(
        'a_times', 1, width=1) + pair('x_exclusions', 1, exists=False) + [
            fx.tensor('x_charge', [None, 1], 'data'),
            fx.tensor('x_mask', [None, 2], 'data', 'bool', exists=False)],
        label=[fx.tensor('m_labels', [None], 'label')],
        misc=[fx.tensor('a_seed', [None, 1], 'misc')], weight=[]),
}
CACHE = {}


def handler(kind):
    if kind not in CACHE:
        h = ModuleDataHandler()
        data = {k + '_tensors': DataTensorList(SETS[kind][k]) for k in KINDS}
        data['tensors'] = DataTensorList(sum(
            [data[k + '_tensors'].list for k in KINDS], []))
        sub = {k + '_module': Given() for k in KINDS}
        sub['filter_module'] = Mask()
        fx.component(h, data, sub, h._untracked_data)
        CACHE[kind] = h
    h = CACHE[kind]
    for m in h._sub_components.values():
        m.calls = []
    return h


def arrays(env, kind, n_events, n_values, ids=None, tag=''):
    """{name: array or None}; ids of vector entries are symbolic events."""
    out = {}
    h = handler(kind)
    for t in h.tensors.list:
        if not t.exists:
            out[t.name] = None
        elif t.vector_info is None:
            out[t.name] = env.array(tag + t.name, (n_events,) + tuple(
                t.shape[1:]))
        elif t.vector_info['type'] == 'value':
            out[t.name] = env.array(
                tag + t.name, (n_values[t.name],) + tuple(t.shape[1:]))
        else:
            n = n_values[t.vector_info['reference']]
            v = np.zeros((n, t.shape[1]), dtype=np.int32)
            for i in range(n):
                if ids is None:
                    v[i, 0] = env.choose('%s%s_%d' % (tag, t.name, i), 0,
                                         n_events - 1)
                else:
                    v[i, 0] = ids[t.vector_info['reference']][i]
                v[i, 1:] = 7 + i
            out[t.name] = env.native(v)
    return out


def give(h, data, nums):
    for k in KINDS:
        ts = h._data[k + '_tensors']
        h._sub_components[k + '_module'].result = (
            nums.get(k), [data[t.name] for t in ts.list] if ts.len
            else (None,)) if nums.get(k) is not None or ts.len == 0 \
            else (None, None)
