"""numpy front end: object arrays of terms behind the numpy API.

``SArr`` is an ndarray of dtype object whose elements are terms; ``symnp`` is
a stand-in for the ``numpy`` module object inside the module under test (only
the name ``np`` of that module is rebound, its code is the real code).
Everything that is not overridden falls through to numpy itself.
"""
import builtins
import itertools
import numpy as np
from fractions import Fraction
from . import terms as tm
from .terms import T, Unsupported

_HAND = {}


def has_sym(x, depth=6):
    if isinstance(x, T):
        return True
    if isinstance(x, SArr):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for v in x.reshape(-1):
                if isinstance(v, T):
                    return True
        return False
    if isinstance(x, (list, tuple)) and depth:
        for v in x:
            if has_sym(v, depth - 1):
                return True
    if _column(x):
        return has_sym(np.asarray(x))
    return False


def _column(x):
    """A pandas column of objects."""
    return hasattr(x, 'iloc') and getattr(x, 'ndim', 0) == 1 and \
        getattr(x, 'dtype', None) == object


def _obj(x):
    """Object ndarray of terms from anything array like."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return np.asarray(x)
        out = np.empty(x.shape, dtype=object)
        flat = out.reshape(-1) if out.size else out
        if x.size:
            if x.dtype == np.float32:
                vals = [np.float32(v) for v in x.reshape(-1)]
            else:
                vals = x.reshape(-1).tolist()
            for i, v in enumerate(vals):
                flat[i] = v
        return out
    if isinstance(x, T):
        out = np.empty((), dtype=object)
        out[()] = x
        return out
    if isinstance(x, (list, tuple)):
        parts = [_obj(v) for v in x]
        if not parts:
            return np.empty((0,), dtype=object)
        shp = parts[0].shape
        for p in parts:
            if p.shape != shp:
                raise ValueError('inhomogeneous shape')
        out = np.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p
        return out
    if hasattr(x, '__array__'):
        return _obj(np.asarray(x))
    out = np.empty((), dtype=object)
    out[()] = x
    return out


def sarr(x):
    return _obj(x).view(SArr)


def _wrap(o):
    """Object ndarray -> SArr, or a native array if it holds only constant
    booleans, or the scalar for 0-d."""
    if o.ndim == 0:
        v = o[()]
        if isinstance(v, T) and v.sort == 'B' and v.op == 'const':
            return np.bool_(v.val)
        return v
    if o.size and all(isinstance(v, (bool, np.bool_)) or
                      isinstance(v, T) and v.sort == 'B' and v.op == 'const'
                      for v in o.reshape(-1)):
        return np.array([bool(v.val if isinstance(v, T) else v)
                         for v in o.reshape(-1)],
                        dtype=bool).reshape(o.shape)
    return o.view(SArr)


def _l(v):
    return tm.lift(v)


def _m(name):
    def f(a):
        return getattr(_l(a), name)()
    return f


def _pw(a, b):
    return tm.power(_l(a), _l(b))


_UF1 = {n: _m(n) for n in (
    'log', 'log1p', 'log10', 'log2', 'exp', 'expm1', 'sqrt', 'square', 'sin',
    'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'tanh', 'reciprocal',
    'deg2rad', 'rad2deg', 'radians', 'degrees', 'floor', 'ceil', 'rint',
    'sign', 'isnan', 'isfinite', 'isinf', 'conjugate', 'trunc', 'sinh',
    'cosh', 'exp2', 'signbit')}
_UF1.update({
    'negative': lambda a: tm.neg(_l(a)),
    'positive': lambda a: _l(a),
    'absolute': lambda a: tm.absolute(_l(a)),
    'fabs': lambda a: tm.absolute(_l(a)),
    'logical_not': lambda a: tm.not_(tm.as_bool(_l(a))),
    'invert': lambda a: ~_l(a),
    'erf': _m('erf'),
    'erfinv': lambda a: tm.fn('erfinv', _l(a)),
    'ndtri': lambda a: tm.fn('ndtri', _l(a)),
    'psi': lambda a: tm.fn('digamma', _l(a)),
    'gammaln': lambda a: tm.fn('lgamma', _l(a)),
})
_UF2 = {
    'add': lambda a, b: (tm.or_(_l(a), _l(b))
                         if _l(a).sort == 'B' and _l(b).sort == 'B'
                         else tm.add(_l(a), _l(b))),
    'subtract': lambda a, b: tm.sub(_l(a), _l(b)),
    'multiply': lambda a, b: (tm.and_(_l(a), _l(b))
                              if _l(a).sort == 'B' and _l(b).sort == 'B'
                              else tm.mul(_l(a), _l(b))),
    'divide': lambda a, b: tm.div(_l(a), _l(b)),
    'true_divide': lambda a, b: tm.div(_l(a), _l(b)),
    'floor_divide': lambda a, b: tm.floordiv(_l(a), _l(b)),
    'remainder': lambda a, b: tm.mod(_l(a), _l(b)),
    'mod': lambda a, b: tm.mod(_l(a), _l(b)),
    'power': _pw, 'float_power': _pw,
    'maximum': lambda a, b: tm.maximum(_l(a), _l(b)),
    'minimum': lambda a, b: tm.minimum(_l(a), _l(b)),
    'fmax': lambda a, b: tm.maximum(_l(a), _l(b)),
    'fmin': lambda a, b: tm.minimum(_l(a), _l(b)),
    'less': lambda a, b: tm.lt(_l(a), _l(b)),
    'less_equal': lambda a, b: tm.le(_l(a), _l(b)),
    'greater': lambda a, b: tm.gt(_l(a), _l(b)),
    'greater_equal': lambda a, b: tm.ge(_l(a), _l(b)),
    'equal': lambda a, b: _eqx(a, b),
    'not_equal': lambda a, b: tm.not_(_eqx(a, b)),
    'logical_and': lambda a, b: tm.and_(tm.as_bool(_l(a)),
                                        tm.as_bool(_l(b))),
    'logical_or': lambda a, b: tm.or_(tm.as_bool(_l(a)), tm.as_bool(_l(b))),
    'logical_xor': lambda a, b: tm.xor_(tm.as_bool(_l(a)),
                                        tm.as_bool(_l(b))),
    'bitwise_and': lambda a, b: tm.and_(_l(a), _l(b)),
    'bitwise_or': lambda a, b: tm.or_(_l(a), _l(b)),
    'bitwise_xor': lambda a, b: tm.xor_(_l(a), _l(b)),
    'arctan2': lambda a, b: tm.fn('arctan2', _l(a), _l(b)),
    'hypot': lambda a, b: tm.fn('sqrt', tm.add(tm.mul(_l(a), _l(a)),
                                               tm.mul(_l(b), _l(b)))),
    'logaddexp': lambda a, b: tm.fn('log', tm.add(
        tm.fn('exp', _l(a)), tm.fn('exp', _l(b)))),
    'fmod': lambda a, b: _fmod(_l(a), _l(b)),
    'copysign': lambda a, b: tm.ite(
        tm.lt(_l(b), tm.ZERO), tm.neg(tm.absolute(_l(a))),
        tm.absolute(_l(a))),
    'heaviside': lambda a, b: tm.ite(
        tm.lt(_l(a), tm.ZERO), tm.ZERO,
        tm.ite(tm.eq(_l(a), tm.ZERO), tm.to_real(_l(b)), tm.ONE)),
}
_PRED = frozenset(['less', 'less_equal', 'greater', 'greater_equal', 'equal',
                   'not_equal', 'isnan', 'isfinite', 'isinf', 'logical_and',
                   'logical_or', 'logical_not', 'logical_xor'])
_IDENT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False,
          'bitwise_and': True, 'bitwise_or': False}


def _fmod(a, b):
    q = tm.div(tm.to_real(a), tm.to_real(b))
    return tm.sub(a, tm.mul(b, q.trunc()))


def _eqx(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return tm.const(a is b or (isinstance(a, str) and a == b))
    return tm.eq(_l(a), _l(b))


def _elementwise(f, arrs):
    bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = np.empty(bs[0].shape, dtype=object)
    fl = out.reshape(-1) if out.ndim else None
    if out.ndim == 0:
        out[()] = f(*[b[()] for b in bs])
        return out
    flats = [b.reshape(-1) for b in bs]
    for i in range(out.size):
        fl[i] = f(*[x[i] for x in flats])
    return out


def _axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(int(a) % ndim for a in axis)
    return (int(axis) % ndim,)


def _reduce(f, a, axis, keepdims=False, init=None):
    a = _obj(a)
    if a.ndim == 0:
        a = a.reshape(1)
        axis = 0
    ax = _axes(axis, a.ndim)
    keep = [i for i in range(a.ndim) if i not in ax]
    b = a.transpose(keep + list(ax))
    ks = tuple(a.shape[i] for i in keep)
    n = int(np.prod([a.shape[i] for i in ax])) if ax else 1
    b = b.reshape(ks + (n,))
    out = np.empty(ks, dtype=object)
    for idx in np.ndindex(*ks):
        row = b[idx]
        if n == 0:
            if init is None:
                raise ValueError('zero-size array to reduction operation')
            out[idx] = tm.lift(init)
            continue
        out[idx] = f(list(row))
    if keepdims:
        out = out.reshape(tuple(1 if i in ax else a.shape[i]
                                for i in range(a.ndim)))
    return _wrap(out)


def _fold(f):
    def g(vals):
        r = _l(vals[0])
        for v in vals[1:]:
            r = f(r, v)
        return r
    return g


def ufunc(uf, method, inputs, kwargs):
    name = uf.__name__
    where = kwargs.pop('where', True)
    out = kwargs.pop('out', None)
    kwargs.pop('dtype', None)
    kwargs.pop('casting', None)
    kwargs.pop('subok', None)
    f1, f2 = _UF1.get(name), _UF2.get(name)
    if method == '__call__':
        if name == 'matmul':
            r = matmul(*inputs)
        elif name == 'divmod':
            return (ufunc(np.floor_divide, method, inputs, {}),
                    ufunc(np.remainder, method, inputs, {}))
        elif name in ('vecdot', 'modf', 'frexp'):
            raise Unsupported('ufunc ' + name)
        elif name.endswith(' (vectorized)'):
            out_ = uf(*[_obj(x) for x in inputs])
            return out_.view(SArr) if isinstance(out_, np.ndarray) else out_
        elif f1 is not None and len(inputs) == 1:
            r = _elementwise(f1, [_obj(inputs[0])])
        elif f2 is not None and len(inputs) == 2:
            r = _elementwise(f2, [_obj(inputs[0]), _obj(inputs[1])])
        else:
            raise Unsupported('ufunc ' + name)
        if where is not True:
            o = _obj(out[0]) if out is not None else None
            w = np.broadcast_to(_obj(where), r.shape)
            if o is None:
                raise Unsupported('where without out')
            r = _elementwise(lambda c, a, b: tm.ite(_l(c), _l(a), _l(b)),
                             [w, r, np.broadcast_to(o, r.shape)])
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, np.ndarray) and o.dtype == object:
                np.asarray(o)[...] = r
                return o
            if isinstance(o, np.ndarray):
                # in-place operation on a native array: only constants fit
                o[...] = np.array([_native(v) for v in r.reshape(-1)],
                                  dtype=o.dtype).reshape(o.shape)
                return o
        if name in _PRED and not r.size:
            return r.astype(bool)
        return _wrap(np.asarray(r))
    if method == 'reduce':
        axis = kwargs.pop('axis', 0)
        keepdims = kwargs.pop('keepdims', False)
        init = kwargs.pop('initial', None)
        a = inputs[0]
        if where is not True and where is not np._NoValue:
            ident = _IDENT.get(name) if init in (
                None, np._NoValue) else init
            if ident is None:
                raise Unsupported('reduction with where')
            a = h_where(where, a, ident)
        r = _reduce(_fold(f2), a, axis, keepdims,
                    _IDENT.get(name) if init is None else init)
        if init is not None and init is not np._NoValue:
            r = ufunc(uf, '__call__', (r, init), {})
        return r
    if method == 'reduceat':
        a, at = _obj(inputs[0]), [int(v) for v in inputs[1]]
        axis = kwargs.pop('axis', 0) % a.ndim
        v = np.moveaxis(a, axis, 0)
        parts = []
        for i, k in enumerate(at):
            e = at[i + 1] if i + 1 < len(at) else len(v)
            parts.append(_obj(_reduce(_fold(f2), v[k:max(e, k + 1)], 0)))
        return np.moveaxis(np.stack(parts), 0, axis).view(SArr)
    if method == 'accumulate':
        a = _obj(inputs[0])
        axis = kwargs.pop('axis', 0) % a.ndim
        out_ = np.array(a, dtype=object)
        v = np.moveaxis(out_, axis, 0)
        for i in range(1, v.shape[0]):
            v[i] = _elementwise(f2, [v[i - 1], v[i]])
        return _wrap(out_)
    if method == 'outer':
        a, b = _obj(inputs[0]), _obj(inputs[1])
        return _wrap(_elementwise(f2, [
            a.reshape(a.shape + (1,) * b.ndim),
            b.reshape((1,) * a.ndim + b.shape)]))
    if method == 'at':
        a, idx, b = inputs
        a = np.asarray(a)
        if a.dtype != object:
            raise Unsupported('ufunc.at on a native array')
        pos = np.empty(a.shape, dtype=object)
        for i, p in enumerate(np.ndindex(*a.shape)):
            pos[p] = p
        sel = pos[_key(idx)]
        bb = np.broadcast_to(_obj(b), sel.shape)
        for p, v in zip(sel.reshape(-1), bb.reshape(-1)):
            a[p] = f2(a[p], v)
        return None
    raise Unsupported('ufunc method ' + method)


def _native(v):
    if isinstance(v, T):
        if v.op != 'const':
            raise Unsupported('symbolic value into a native array')
        return bool(v.val) if v.sort == 'B' else (
            int(v.val) if v.sort == 'I' else float(v.val))
    return v


def _t_array_ufunc(self, uf, method, *inputs, **kwargs):
    return ufunc(uf, method, inputs, kwargs)


T.__array_ufunc__ = _t_array_ufunc


def _key(k):
    """Make an index usable by numpy (symbolic integers fork)."""
    if isinstance(k, tuple):
        return tuple(_key(x) for x in k)
    if isinstance(k, T):
        if k.sort == 'B':
            return bool(k)
        return k.__index__()
    if isinstance(k, (SArr, list)) and has_sym(k) or (
            isinstance(k, np.ndarray) and k.dtype == object):
        o = _obj(k)
        if o.size == 0:
            return np.zeros(o.shape, dtype=int)
        v0 = o.reshape(-1)[0]
        if isinstance(v0, (bool, np.bool_)) or (
                isinstance(v0, T) and v0.sort == 'B'):
            return np.array([bool(v) for v in o.reshape(-1)],
                            dtype=bool).reshape(o.shape)
        return np.array([int(v) for v in o.reshape(-1)],
                        dtype=int).reshape(o.shape)
    return k


def _extra(k):
    """Arguments that change what is reduced."""
    for n in list(k):
        if k[n] is np._NoValue or n == 'where' and k[n] is True:
            del k[n]
    if set(k) - {'where', 'initial'}:
        raise Unsupported('arguments of a reduction')
    return k


def _nums(a):
    return sarr(_elementwise(lambda v: tm.as_num(_l(v)), [np.asarray(a)]))


class SArr(np.ndarray):
    __array_priority__ = 2000.0

    def __array_ufunc__(self, uf, method, *inputs, **kwargs):
        return ufunc(uf, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        h = _HAND.get(func.__name__)
        if h is not None:
            return h(*args, **kwargs)
        r = func._implementation(*[_down(a) for a in args],
                                 **{k: _down(v) for k, v in kwargs.items()})
        return _up(r)

    def __array_finalize__(self, obj):
        pass

    def __getitem__(self, k):
        r = np.asarray(self)[_key(k)]
        if isinstance(r, np.ndarray):
            return r.view(SArr)
        return r

    def __setitem__(self, k, v):
        base = np.asarray(self)
        if isinstance(v, T) or not isinstance(v, (list, tuple, np.ndarray)):
            vo = None
        else:
            vo = _obj(v)
        # masked assignment with a symbolic mask: if-then-else per element
        if isinstance(k, SArr) and k.size and _is_symmask(k) and (
                vo is None or vo.ndim == 0 or vo.size == 1):
            km = _obj(k)
            val = v if vo is None else vo.reshape(-1)[0]
            km = km.reshape(km.shape + (1,) * (base.ndim - km.ndim))
            km = np.broadcast_to(km, base.shape)
            for i in np.ndindex(*base.shape):
                base[i] = tm.ite(_l(km[i]), _l(val), _l(base[i]))
            return
        kk = _key(k)
        if vo is None:
            if isinstance(v, T):
                tgt = base[kk]
                if isinstance(tgt, np.ndarray) and tgt.ndim:
                    fill = np.empty(tgt.shape, dtype=object)
                    for i in np.ndindex(*tgt.shape):
                        fill[i] = v
                    base[kk] = fill
                    return
            base[kk] = v
        else:
            base[kk] = vo

    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        if dt.kind == 'b':
            return _wrap(_elementwise(lambda v: tm.as_bool(_l(v)),
                                      [np.asarray(self)]))
        if dt.kind in 'iu':
            def conv(v):
                v = _l(v)
                return tm.to_int(v) if v.sort == 'R' else tm.as_num(v)
            return _wrap(_elementwise(conv, [np.asarray(self)]))
        return sarr(_elementwise(lambda v: tm.as_num(_l(v)),
                                 [np.asarray(self)])) if self.ndim else self

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if _extra(k):
            return ufunc(np.add, 'reduce', (_nums(self),), dict(
                axis=axis, keepdims=keepdims, **k))
        a = self
        if any(isinstance(v, T) and v.sort == 'B'
               for v in np.asarray(a).reshape(-1)):
            a = sarr(_elementwise(lambda v: tm.as_num(_l(v)),
                                  [np.asarray(a)]))
        return _reduce(_fold(_UF2['add_n']), a, axis, keepdims, 0)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if _extra(k):
            return ufunc(np.multiply, 'reduce', (self,), dict(
                axis=axis, keepdims=keepdims, **k))
        return _reduce(_fold(_UF2['multiply_n']), self, axis, keepdims, 1)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return h_mean(self, axis, keepdims=keepdims, **k)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np.sqrt(h_var(self, axis, ddof=ddof, keepdims=keepdims))

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return h_var(self, axis, ddof=ddof, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        if _extra(k):
            return ufunc(np.maximum, 'reduce', (self,), dict(
                axis=axis, keepdims=keepdims, **k))
        return _reduce(_fold(_UF2['maximum']), self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        if _extra(k):
            return ufunc(np.minimum, 'reduce', (self,), dict(
                axis=axis, keepdims=keepdims, **k))
        return _reduce(_fold(_UF2['minimum']), self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        if _extra(k):
            return ufunc(np.logical_or, 'reduce', (self,), dict(
                axis=axis, keepdims=keepdims, **k))
        return _reduce(_fold(_UF2['logical_or']), self, axis, keepdims,
                       False)

    def all(self, axis=None, out=None, keepdims=False, **k):
        if _extra(k):
            return ufunc(np.logical_and, 'reduce', (self,), dict(
                axis=axis, keepdims=keepdims, **k))
        return _reduce(_fold(_UF2['logical_and']), self, axis, keepdims,
                       True)

    def cumsum(self, axis=None, dtype=None, out=None):
        self = _nums(self) if _is_mask(self) else self
        a = self if axis is not None else self.reshape(-1)
        return np.add.accumulate(a, axis=axis or 0)

    def argmin(self, axis=None, out=None, **k):
        return h_argbest(self, axis, tm.lt)

    def argmax(self, axis=None, out=None, **k):
        return h_argbest(self, axis, tm.gt)

    def argsort(self, axis=-1, **k):
        return h_argsort(self, axis)

    def sort(self, axis=-1, **k):
        self[...] = h_sort(self, axis)

    def dot(self, o):
        return matmul_any(self, o)

    def clip(self, min=None, max=None, out=None, **k):
        return h_clip(self, min, max)

    def round(self, decimals=0, out=None):
        return h_round(self, decimals)

    def cumprod(self, axis=None, dtype=None, out=None):
        a = self if axis is not None else self.reshape(-1)
        return np.multiply.accumulate(a, axis=axis or 0)

    def tolist(self):
        return np.asarray(self).tolist()

    def item(self, *a):
        return np.asarray(self).item(*a)

    def nonzero(self):
        return np.nonzero(_key(np.asarray(self) != 0
                               if not _is_mask(self) else self))

    def searchsorted(self, v, side='left', sorter=None):
        return h_searchsorted(self, v, side, sorter)

    def __bool__(self):
        if self.size == 1:
            return bool(np.asarray(self).reshape(-1)[0])
        raise ValueError('truth value of an array is ambiguous')

    def __float__(self):
        return float(np.asarray(self).reshape(-1)[0])

    def __contains__(self, v):
        return bool(tm.disj([_eqx(x, v) for x in
                             np.asarray(self).reshape(-1)]))

    def numpy(self):
        return self


class RArr(np.ndarray):
    """Structured array with fields of terms."""

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, _key(k))
        if isinstance(r, np.ndarray) and r.dtype == object:
            return np.asarray(r).view(SArr)
        return r

    def __setitem__(self, k, v):
        if isinstance(v, (T, SArr)):
            if k in (self.dtype.names or ()):
                np.asarray(self)[k][...] = v if isinstance(v, T) else _obj(v)
                return
        np.ndarray.__setitem__(self, _key(k), v)


class NArr(np.ndarray):
    """Native array that takes symbolic indices and masks (they fork)."""

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, _key(k))

    def __setitem__(self, k, v):
        np.ndarray.__setitem__(self, _key(k), v)


def _inplace(name, f):
    real = getattr(np.ndarray, name)

    def op(self, o):
        # a symbolic operand: the name is bound to a new, symbolic array
        return f(np.asarray(self), o) if has_sym(o) else real(self, o)
    return op


for _n, _f in (('and', np.bitwise_and), ('or', np.bitwise_or),
               ('xor', np.bitwise_xor), ('add', np.add),
               ('sub', np.subtract), ('mul', np.multiply)):
    setattr(NArr, '__i%s__' % _n, _inplace('__i%s__' % _n, _f))


def nat(a):
    return a.view(NArr) if a.dtype.kind in 'iub' else a


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, x):
        return issubclass(x, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


def _float(real):
    """A float type that keeps terms."""
    def new(cls, x=0.):
        if isinstance(x, SArr) and x.size == 1 and not x.ndim:
            x = x[()]
        if isinstance(x, T) and x.op != 'const':
            return tm.to_real(tm.as_num(x))
        if isinstance(x, SArr):
            return x.astype(float)
        return real(x)
    return _FloatMeta(real.__name__, (), dict(
        __new__=new, _real=real, dtype=np.dtype(real)))


Float = _float(float)


def _rec(r):
    dt = r.dtype
    if dt.names and any(dt[f] == object for f in dt.names):
        for f in dt.names:
            if dt[f] == object:
                r[f] = tm.ZERO
        return r.view(RArr)
    return r


_UF2['add_n'] = lambda a, b: tm.add(_l(a), _l(b))
_UF2['multiply_n'] = lambda a, b: tm.mul(_l(a), _l(b))


def _is_mask(k):
    o = np.asarray(k).reshape(-1)
    return o.size > 0 and all(
        isinstance(v, (bool, np.bool_)) or isinstance(v, T) and v.sort == 'B'
        for v in o)


def _is_symmask(k):
    return _is_mask(k) and any(isinstance(v, T) and v.op != 'const'
                               for v in np.asarray(k).reshape(-1))


def _down(a):
    if isinstance(a, SArr):
        return np.asarray(a)
    if isinstance(a, (list, tuple)) and not hasattr(a, '_fields'):
        return type(a)([_down(x) for x in a])
    return a


def _up(r):
    if isinstance(r, np.ndarray) and r.dtype == object:
        return r.view(SArr) if r.ndim else r[()]
    if isinstance(r, (list, tuple)) and not hasattr(r, '_fields'):
        return type(r)([_up(x) for x in r])
    return r


# ---------------------------------------------------------------- functions
def matmul(a, b):
    a, b = _obj(a), _obj(b)
    sq = []
    if a.ndim == 1:
        a = a[None, :]
        sq.append(-2)
    if b.ndim == 1:
        b = b[:, None]
        sq.append(-1)
    if a.shape[-1] != b.shape[-2]:
        raise ValueError('matmul: shape mismatch {} {}'.format(
            a.shape, b.shape))
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, bs + a.shape[-2:])
    b = np.broadcast_to(b, bs + b.shape[-2:])
    n, k, m = a.shape[-2], a.shape[-1], b.shape[-1]
    out = np.empty(bs + (n, m), dtype=object)
    for idx in np.ndindex(*bs):
        for i in range(n):
            for j in range(m):
                s = tm.ZERO
                for l in range(k):
                    s = tm.add(s, tm.mul(_l(a[idx][i, l]), _l(b[idx][l, j])))
                out[idx + (i, j)] = s
    if -1 in sq:
        out = out[..., 0]
        if -2 in sq:
            out = out[..., 0]
    elif -2 in sq:
        out = out[..., 0, :]
    return out


def matmul_any(a, b):
    ao, bo = _obj(a), _obj(b)
    if ao.ndim == 0 or bo.ndim == 0:
        return np.multiply(sarr(ao), sarr(bo))
    if bo.ndim > 2:
        raise Unsupported('dot')
    return _wrap(np.asarray(matmul(ao, bo)))


def handles(*names):
    def d(f):
        for n in names:
            _HAND[n] = f
        return f
    return d


@handles('where')
def h_where(c, *ab):
    if not ab:
        m = _key(sarr(c)) if has_sym(c) else np.asarray(c)
        return np.where(np.asarray(m))
    a, b = ab
    if not (has_sym(c) or has_sym(a) or has_sym(b)):
        return np.where(c, a, b)
    return _wrap(_elementwise(
        lambda x, y, z: tm.ite(tm.as_bool(_l(x)), _l(y), _l(z)),
        [_obj(c), _obj(a), _obj(b)]))


@handles('clip')
def h_clip(a, a_min=None, a_max=None, out=None, **k):
    lo = k.get('min', a_min)
    hi = k.get('max', a_max)
    r = sarr(a)
    if lo is not None:
        r = np.maximum(r, sarr(lo))
    if hi is not None:
        r = np.minimum(sarr(r), sarr(hi))
    return r


def _nk(v, d):
    return d if v is np._NoValue or v is None else v


@handles('sum', 'nansum')
def h_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return sarr(a).sum(axis=axis, keepdims=_nk(keepdims, False), **k)


@handles('prod', 'nanprod', 'product')
def h_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return sarr(a).prod(axis=axis, keepdims=_nk(keepdims, False), **k)


@handles('mean', 'nanmean')
def h_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = sarr(a)
    if _extra(k):
        w = sarr(np.broadcast_to(_obj(k['where']), a.shape))
        kw = dict(axis=axis, keepdims=_nk(keepdims, False))
        return np.divide(a.sum(where=w, **kw), _nums(w).sum(**kw))
    ax = _axes(axis, a.ndim) if a.ndim else ()
    n = int(np.prod([a.shape[i] for i in ax])) if ax else 1
    return np.divide(a.sum(axis=axis, keepdims=_nk(keepdims, False)), n)


@handles('average')
def h_average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return h_mean(a, axis)
    a, w = sarr(a), sarr(weights)
    if w.shape != a.shape:
        if w.ndim == 1 and isinstance(axis, int):
            shp = [1] * a.ndim
            shp[axis] = w.shape[0]
            w = w.reshape(shp)
        w = sarr(np.broadcast_to(np.asarray(w), a.shape))
    return np.divide((a * w).sum(axis=axis), w.sum(axis=axis))


@handles('var', 'nanvar')
def h_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = sarr(a)
    m = h_mean(a, axis, keepdims=True)
    ax = _axes(axis, a.ndim)
    n = int(np.prod([a.shape[i] for i in ax]))
    d = a - m
    return np.divide(sarr(d * d).sum(axis=axis,
                                     keepdims=_nk(keepdims, False)),
                     n - ddof)


@handles('std', 'nanstd')
def h_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return np.sqrt(h_var(a, axis, ddof=ddof, keepdims=keepdims))


@handles('any')
def h_any(a, axis=None, out=None, keepdims=False, **k):
    return sarr(a).any(axis=axis, keepdims=_nk(keepdims, False), **k)


@handles('all')
def h_all(a, axis=None, out=None, keepdims=False, **k):
    return sarr(a).all(axis=axis, keepdims=_nk(keepdims, False), **k)


@handles('max', 'amax', 'nanmax')
def h_max(a, axis=None, out=None, keepdims=False, **k):
    return sarr(a).max(axis=axis, keepdims=_nk(keepdims, False), **k)


@handles('min', 'amin', 'nanmin')
def h_min(a, axis=None, out=None, keepdims=False, **k):
    return sarr(a).min(axis=axis, keepdims=_nk(keepdims, False), **k)


@handles('cumsum', 'nancumsum')
def h_cumsum(a, axis=None, dtype=None, out=None):
    return sarr(a).cumsum(axis=axis)


@handles('cumprod', 'nancumprod')
def h_cumprod(a, axis=None, dtype=None, out=None):
    return sarr(a).cumprod(axis=axis)


@handles('diff')
def h_diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = sarr(a)
    axis = axis % a.ndim
    v = np.moveaxis(np.asarray(a), axis, 0)

    def part(x):
        x = _obj(x)
        return np.broadcast_to(x, (1,) + v.shape[1:]) if x.ndim == 0 \
            else np.moveaxis(x, axis, 0)
    parts = [v]
    if prepend is not np._NoValue:
        parts.insert(0, part(prepend))
    if append is not np._NoValue:
        parts.append(part(append))
    v = np.concatenate(parts).view(SArr)
    for _ in range(n):
        v = v[1:] - v[:-1]
    return np.moveaxis(np.asarray(v), 0, axis).view(SArr)


@handles('ediff1d')
def h_ediff1d(a, to_end=None, to_begin=None):
    r = [h_diff(sarr(a).reshape(-1))]
    if to_begin is not None:
        r.insert(0, sarr(to_begin).reshape(-1))
    if to_end is not None:
        r.append(sarr(to_end).reshape(-1))
    return h_concatenate(r)


@handles('interp')
def h_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp')
    xs, fs = [_l(v) for v in _obj(xp)], [_l(v) for v in _obj(fp)]

    def one(v):
        v = _l(v)
        r = fs[-1] if right is None else _l(right)
        if right is not None:
            r = tm.ite(tm.le(v, xs[-1]), fs[-1], r)
        for i in reversed(range(len(xs) - 1)):
            d = tm.div(tm.sub(fs[i + 1], fs[i]), tm.sub(xs[i + 1], xs[i]))
            r = tm.ite(tm.lt(v, xs[i + 1]), tm.add(
                fs[i], tm.mul(d, tm.sub(v, xs[i]))), r)
        return tm.ite(tm.lt(v, xs[0]), fs[0] if left is None else _l(left),
                      r)
    return _wrap(_elementwise(one, [_obj(x)]))


@handles('select')
def h_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = h_where(c, v, r) if has_sym(c) or has_sym(v) or has_sym(r) \
            else np.where(c, v, r)
    return r


@handles('bincount')
def h_bincount(x, weights=None, minlength=0):
    idx = [int(v) for v in _obj(x)]
    n = max([minlength] + [i + 1 for i in idx])
    if weights is None:
        return np.bincount(idx, minlength=minlength)
    out = [tm.ZERO] * n
    for i, w in zip(idx, _obj(weights)):
        out[i] = tm.add(out[i], _l(w))
    return sarr(out)


@handles('corrcoef')
def h_corrcoef(a, y=None, rowvar=True, **k):
    c = sarr(h_cov(a, y, rowvar))
    if not c.ndim:
        return tm.ONE
    d = np.sqrt(sarr([c[i, i] for i in range(len(c))]))
    return c / d[:, None] / d[None, :]


@handles('gradient')
def h_gradient(*a, **k):
    raise Unsupported('gradient')


@handles('fix')
def h_fix(a, out=None):
    return np.trunc(sarr(a))


@handles('angle')
def h_angle(a, deg=False):
    raise Unsupported('angle')


def along(f, a, axis):
    """f of all 1-d slices along an axis."""
    a = np.moveaxis(_obj(a), axis, -1)
    out = np.empty(a.shape[:-1], dtype=object)
    rows = [f(sarr(a[i])) for i in np.ndindex(*out.shape)]
    if rows and isinstance(rows[0], np.ndarray):
        r = np.stack([_obj(x) for x in rows], axis=-1)
        return r.reshape(r.shape[:-1] + out.shape).view(SArr)
    for i, r in zip(np.ndindex(*out.shape), rows):
        out[i] = r
    return out.view(SArr)


def h_argbest(a, axis, cmp):
    o = _obj(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    o = np.moveaxis(o, axis, -1)
    out = np.empty(o.shape[:-1], dtype=int)
    for idx in np.ndindex(*out.shape):
        row = o[idx]
        best = 0
        for i in range(1, len(row)):
            if bool(cmp(_l(row[i]), _l(row[best]))):
                best = i
        out[idx] = best
    return out if out.ndim else np.int64(out[()])


@handles('argmin', 'nanargmin')
def h_argmin(a, axis=None, out=None, **k):
    return h_argbest(a, axis, tm.lt)


@handles('argmax', 'nanargmax')
def h_argmax(a, axis=None, out=None, **k):
    return h_argbest(a, axis, tm.gt)


def _order(row):
    """Stable argsort (forks on comparisons)."""
    order = []
    for i in range(len(row)):
        j = len(order)
        while j > 0 and bool(tm.lt(_l(row[i]), _l(row[order[j - 1]]))):
            j -= 1
        order.insert(j, i)
    return order


@handles('argsort')
def h_argsort(a, axis=-1, kind=None, order=None, **k):
    o = _obj(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    v = np.moveaxis(o, axis, -1)
    out = np.empty(v.shape, dtype=int)
    for idx in np.ndindex(*v.shape[:-1]):
        out[idx] = _order(v[idx])
    return np.moveaxis(out, -1, axis)


@handles('sort')
def h_sort(a, axis=-1, kind=None, order=None, **k):
    o = _obj(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    v = np.array(np.moveaxis(o, axis, -1), dtype=object)
    for idx in np.ndindex(*v.shape[:-1]):
        row = list(v[idx])
        v[idx] = [row[i] for i in _order(row)]
    return np.moveaxis(v, -1, axis).view(SArr)


@handles('searchsorted')
def h_searchsorted(a, v, side='left', sorter=None):
    o = _obj(a)
    if sorter is not None:
        o = o[np.asarray(sorter)]
    f = (lambda x, y: tm.lt(x, y)) if side == 'left' else (
        lambda x, y: tm.le(x, y))

    def one(q):
        lo, hi = 0, len(o)
        while lo < hi:
            mid = (lo + hi) // 2
            if bool(f(_l(o[mid]), _l(q))):
                lo = mid + 1
            else:
                hi = mid
        return lo
    vo = _obj(v)
    if vo.ndim == 0:
        return np.int64(one(vo[()]))
    return np.array([one(q) for q in vo.reshape(-1)],
                    dtype=int).reshape(vo.shape)


@handles('digitize')
def h_digitize(x, bins, right=False):
    # increasing bins only
    return h_searchsorted(bins, x, side='left' if right else 'right')


@handles('isclose')
def h_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return _wrap(_elementwise(
        lambda x, y: tm.le(tm.absolute(tm.sub(_l(x), _l(y))),
                           tm.add(_l(atol), tm.mul(_l(rtol), tm.absolute(
                               _l(y))))), [_obj(a), _obj(b)]))


@handles('allclose')
def h_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return h_all(h_isclose(a, b, rtol, atol))


@handles('array_equal')
def h_array_equal(a, b, **k):
    a, b = _obj(a), _obj(b)
    if a.shape != b.shape:
        return False
    return h_all(_elementwise(lambda x, y: _eqx(x, y), [a, b]))


@handles('dot')
def h_dot(a, b, out=None):
    return matmul_any(a, b)


@handles('inner')
def h_inner(a, b):
    return matmul_any(a, b)


@handles('outer')
def h_outer(a, b, out=None):
    return np.multiply.outer(sarr(a).reshape(-1), sarr(b).reshape(-1))


@handles('cross')
def h_cross(a, b, **k):
    a, b = sarr(a), sarr(b)
    return h_stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
                    a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                    a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], axis=-1)


@handles('trace')
def h_trace(a, **k):
    a = _obj(a)
    return _fold(tm.add)([_l(a[i, i]) for i in range(min(a.shape))])


@handles('einsum')
def h_einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        raise Unsupported('einsum')
    return einsum(spec, [_obj(o) for o in ops])


def einsum(spec, ops):
    spec = spec.replace(' ', '')
    lhs, _, out = spec.partition('->')
    ins = lhs.split(',')
    free = [c for c in 'ZYXWVUTSRQPONMLKJIHGFEDCBA' if c not in spec]
    ell = max([o.ndim - len(i.replace('...', ''))
               for i, o in zip(ins, ops) if '...' in i] + [0])
    names = ''.join(free[:ell])

    def full(i, n):
        m = n - len(i.replace('...', ''))
        return i.replace('...', names[ell - m:])
    ins = [full(i, o.ndim) for i, o in zip(ins, ops)]
    if '->' in spec:
        out = out.replace('...', names)
    else:
        al = ''.join(ins)
        out = names + ''.join(sorted(
            c for c in set(al) if al.count(c) == 1 and c not in names))
    size = {}
    for i, o in zip(ins, ops):
        if len(i) != o.ndim:
            raise ValueError('einsum: wrong number of dimensions')
        for c, n in zip(i, o.shape):
            if size.setdefault(c, n) != n:
                if 1 not in (size[c], n):
                    raise ValueError('einsum: shapes do not match')
                size[c] = max(size[c], n)
    summed = [c for c in sorted(size) if c not in out]
    res = np.empty([size[c] for c in out], dtype=object)
    for idx in np.ndindex(*res.shape):
        at = dict(zip(out, idx))
        tot = tm.ZERO
        for sub in np.ndindex(*[size[c] for c in summed]):
            at.update(zip(summed, sub))
            p = None
            for i, o in zip(ins, ops):
                v = _l(o[tuple(at[c] if o.shape[n] > 1 else 0
                               for n, c in enumerate(i))])
                p = v if p is None else tm.mul(p, v)
            tot = tm.add(tot, p)
        res[idx] = tot
    return _wrap(res)


@handles('stack')
def h_stack(arrs, axis=0, **k):
    if not any(has_sym(a) for a in arrs):
        return np.stack(arrs, axis=axis)
    return np.stack([_obj(a) for a in arrs], axis=axis).view(SArr)


@handles('concatenate')
def h_concatenate(arrs, axis=0, **k):
    if not any(has_sym(a) for a in arrs):
        return np.concatenate(arrs, axis=axis)
    return np.concatenate([_obj(a) for a in arrs], axis=axis).view(SArr)


@handles('nan_to_num')
def h_nan_to_num(a, *k, **kk):
    return sarr(a)


@handles('around', 'round', 'round_')
def h_round(a, decimals=0, out=None):
    if not has_sym(a):
        return np.round(a, decimals)
    f = tm.const(Fraction(10) ** decimals)
    return _wrap(_elementwise(
        lambda v: tm.div(tm.mul(_l(v), f).rint(), f), [_obj(a)]))


@handles('isin', 'in1d')
def h_isin(a, b, **k):
    bb = list(_obj(b).reshape(-1))
    return _wrap(_elementwise(
        lambda x: tm.disj([_eqx(x, y) for y in bb]), [_obj(a)]))


@handles('unique')
def h_unique(a, return_index=False, return_inverse=False,
             return_counts=False, axis=None):
    o = _obj(a).reshape(-1)
    order = _order(list(o))
    vals, first, counts, inv = [], [], [], [0] * len(o)
    for i in order:
        if not vals or bool(tm.ne(_l(o[i]), _l(vals[-1]))):
            vals.append(o[i])
            first.append(i)
            counts.append(0)
        counts[-1] += 1
        inv[i] = len(vals) - 1
    r = [sarr(vals)]
    if return_index:
        r.append(np.array(first))
    if return_inverse:
        r.append(np.array(inv))
    if return_counts:
        r.append(np.array(counts))
    return tuple(r) if len(r) > 1 else r[0]


@handles('quantile')
def h_quantile(a, q, axis=None, **k):
    a = sarr(a)
    if set(k) - {'keepdims', 'overwrite_input'} or k.get('keepdims') is True:
        raise Unsupported('quantile')
    if axis is not None and a.ndim > 1:
        return along(lambda x: h_quantile(x, q), a, axis)
    s = h_sort(a.reshape(-1))
    n = len(s)

    def one(q):
        pos = tm.mul(_l(q), tm.const(n - 1))
        if pos.op != 'const':
            raise Unsupported('symbolic quantile')
        i = int(pos.val)
        f = pos.val - i
        if i + 1 >= n:
            return _l(s[n - 1])
        return tm.add(_l(s[i]), tm.mul(tm.const(Fraction(f)),
                                       tm.sub(_l(s[i + 1]), _l(s[i]))))
    qo = _obj(q)
    if qo.ndim == 0:
        return one(qo[()])
    return sarr([one(x) for x in qo])


@handles('percentile')
def h_percentile(a, q, axis=None, **k):
    return h_quantile(a, np.divide(sarr(q), 100), axis, **k)


@handles('median', 'nanmedian')
def h_median(a, axis=None, **k):
    a = sarr(a)
    if axis is not None and a.ndim > 1:
        return along(h_median, a, axis)
    s = h_sort(a.reshape(-1))
    n = len(s)
    if n % 2:
        return s[n // 2]
    return tm.div(tm.add(_l(s[n // 2 - 1]), _l(s[n // 2])), tm.const(2))


@handles('cov')
def h_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if y is not None or k.get('fweights') is not None or k.get(
            'aweights') is not None:
        raise Unsupported('cov')
    a = sarr(m)
    if a.ndim == 1:
        a = a.reshape(1, -1)
    elif not rowvar:
        a = a.T
    n = a.shape[1]
    d = a - np.mean(a, axis=1, keepdims=True)
    c = np.divide(np.matmul(d, d.T), n - (
        ddof if ddof is not None else 0 if bias else 1))
    return c[0, 0] if c.shape == (1, 1) else c


# --------------------------------------------------------------- linear alg
def det(a):
    n = a.shape[0]
    if n == 1:
        return _l(a[0, 0])
    if n == 2:
        return tm.sub(tm.mul(_l(a[0, 0]), _l(a[1, 1])),
                      tm.mul(_l(a[0, 1]), _l(a[1, 0])))
    s = tm.ZERO
    for j in range(n):
        sub = np.delete(a[1:], j, axis=1)
        c = tm.mul(_l(a[0, j]), det(sub))
        s = tm.add(s, c) if j % 2 == 0 else tm.sub(s, c)
    return s


def h_inv(a):
    a = _obj(a)
    if a.ndim > 2:
        return np.stack([_obj(h_inv(x)) for x in a]).view(SArr)
    n = a.shape[0]
    d = det(a)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if n == 1:
                out[0, 0] = tm.div(tm.ONE, d)
                continue
            m = np.delete(np.delete(a, j, axis=0), i, axis=1)
            c = det(m)
            if (i + j) % 2:
                c = tm.neg(c)
            out[i, j] = tm.div(c, d)
    return out.view(SArr)


def h_norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
    x = sarr(x)
    if ord not in (None, 2) or ord == 2 and axis is None and x.ndim > 1:
        if axis is None and x.ndim > 1 or ord not in (1, np.inf):
            raise Unsupported('norm ord')
        f = sarr(abs(x))
        return (f.sum if ord == 1 else f.max)(axis=axis, keepdims=keepdims)
    return np.sqrt(sarr(x * x).sum(axis=axis, keepdims=keepdims))


class _Linalg(object):
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        return getattr(np.linalg, n)

    def inv(self, a):
        return h_inv(a) if has_sym(a) else np.linalg.inv(a)

    def det(self, a):
        return det(_obj(a)) if has_sym(a) else np.linalg.det(a)

    def norm(self, *a, **k):
        return h_norm(*a, **k)

    def solve(self, a, b):
        if has_sym(a) or has_sym(b):
            return matmul_any(h_inv(a), b)
        return np.linalg.solve(a, b)


def _isfloat(dtype):
    if dtype is None or dtype is float or isinstance(dtype, _FloatMeta):
        return True
    try:
        return np.dtype(dtype).kind in 'fO'
    except TypeError:
        return False


class _UFunc(object):
    """A ufunc that also takes plain object arrays (fields of structs)."""

    def __init__(self, f):
        self.f = f

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __call__(self, *a, **k):
        cols = [x for x in a if _column(x)]
        res = self.f(*[x.view(SArr) if type(x) is np.ndarray and
                       x.dtype == object else
                       np.asarray(x).view(SArr) if _column(x) else x
                       for x in a], **k)
        if cols and all(c.index.equals(cols[0].index) for c in cols) and \
                getattr(res, 'shape', None) == (len(cols[0]),):
            return type(cols[0])(np.asarray(res), index=cols[0].index)
        return res


class SymNp(object):
    """Replacement for the name ``np`` in a module under test."""
    float64, float32 = _float(np.float64), _float(np.float32)
    double = float64
    linalg = _Linalg()

    def __init__(self):
        self.overrides = {}

    def __getattr__(self, n):
        if n in _HAND:
            h = _HAND[n]
            real = getattr(np, n)

            def f(*a, **k):
                if any(has_sym(x) for x in a) or any(
                        has_sym(x) for x in k.values()):
                    return h(*a, **k)
                return real(*a, **k)
            self.__dict__[n] = f
            return f
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            v = self.__dict__[n] = _UFunc(v)
            return v
        if not callable(v) or isinstance(v, type):
            return v
        if hasattr(v, '_implementation'):
            def g(*a, **k):
                # functions called on lists of terms
                a = tuple(sarr(x) if isinstance(x, (list, tuple)) and
                          has_sym(x) and _plain_list(x) else x for x in a)
                return v(*a, **k)
            self.__dict__[n] = g
            return g
        return v

    @staticmethod
    def array(x, dtype=None, copy=True, **k):
        if has_sym(x):
            o = np.array(_obj(x), dtype=object).view(SArr)
            if dtype is not None and not _isfloat(dtype):
                return o.astype(dtype)
            return o
        if dtype is None or _isfloat(dtype):
            r = np.array(x, dtype=dtype, copy=copy, **k)
            if r.dtype.kind == 'f':
                return _fl(r)
            return r
        return np.array(x, dtype=dtype, copy=copy, **k)

    @staticmethod
    def asarray(x, dtype=None, **k):
        if isinstance(x, SArr) and (dtype is None or _isfloat(dtype)):
            return x
        return SymNp.array(x, dtype=dtype, copy=False, **k)

    asanyarray = ascontiguousarray = asarray

    @staticmethod
    def copy(x, **k):
        return SymNp.array(x)

    @staticmethod
    def arange(*a, **k):
        if any(isinstance(v, T) for v in a):
            a = [int(v) if isinstance(v, T) and v.sort == 'I' else v
                 for v in a]
        return nat(np.arange(*a, **k))

    @staticmethod
    def atleast_1d(x):
        if has_sym(x):
            o = sarr(x)
            return o if o.ndim else o.reshape(1)
        return np.atleast_1d(x)

    @staticmethod
    def atleast_2d(x):
        if has_sym(x):
            o = sarr(x)
            while o.ndim < 2:
                o = o[None]
            return o
        return np.atleast_2d(x)

    @staticmethod
    def zeros(shape, dtype=float, **k):
        return _rec(_filled(shape, tm.ZERO, np.zeros, dtype))

    @staticmethod
    def ones(shape, dtype=float, **k):
        return _filled(shape, tm.ONE, np.ones, dtype)

    @staticmethod
    def empty(shape, dtype=float, **k):
        if _isfloat(dtype):
            o = np.empty(shape, dtype=object)
            for i in np.ndindex(*o.shape):
                _uninit[0] += 1
                o[i] = tm.var('uninit!{}'.format(_uninit[0]))
            return o.view(SArr)
        return nat(np.empty(shape, dtype=dtype))

    @staticmethod
    def full(shape, fill_value, dtype=None, **k):
        v = fill_value
        if isinstance(v, T) or (_isfloat(dtype) and isinstance(
                v, (float, np.floating))):
            o = np.empty(shape, dtype=object)
            for i in np.ndindex(*o.shape):
                o[i] = tm.lift(v) if not (isinstance(v, float)
                                          and v != v) else v
            return o.view(SArr)
        return nat(np.full(shape, v, dtype=dtype))

    @staticmethod
    def zeros_like(a, dtype=None, **k):
        return _like(a, dtype, 0)

    @staticmethod
    def ones_like(a, dtype=None, **k):
        return _like(a, dtype, 1)

    @staticmethod
    def empty_like(a, dtype=None, **k):
        return _like(a, dtype, 0)

    @staticmethod
    def full_like(a, fill_value, dtype=None, **k):
        v = fill_value
        if dtype is not None and not _isfloat(dtype):
            return np.full(np.shape(a), v, dtype=dtype)
        return SymNp.full(np.shape(a), v if isinstance(v, T) else float(v))

    @staticmethod
    def linspace(start, stop, num=50, endpoint=True, **k):
        if not k and any(isinstance(v, T) for v in (start, stop)):
            n = num - 1 if endpoint else num
            d = tm.sub(_l(stop), _l(start))
            return sarr([tm.add(_l(start), tm.mul(d, tm.const(
                Fraction(i, n)))) if i else start for i in range(num)])
        return np.linspace(start, stop, num, endpoint, **k)

    @staticmethod
    def isscalar(x):
        return isinstance(x, T) or np.isscalar(x)

    @staticmethod
    def shape(x):
        return _obj(x).shape if has_sym(x) else np.shape(x)

    @staticmethod
    def ndim(x):
        return len(SymNp.shape(x))

    @staticmethod
    def argwhere(x):
        return np.argwhere(_key(sarr(x)) if has_sym(x) else x)

    @staticmethod
    def nonzero(x):
        return np.nonzero(_key(sarr(x)) if has_sym(x) else x)

    flatnonzero = None

    @staticmethod
    def fromiter(it, dtype=None, count=-1):
        return SymNp.array(list(it), dtype=dtype)


SymNp.flatnonzero = staticmethod(
    lambda x: np.flatnonzero(_key(sarr(x)) if has_sym(x) else x))

_uninit = [0]


def _plain_list(x):
    for v in x:
        if isinstance(v, np.ndarray) and v.ndim:
            return False
        if isinstance(v, (list, tuple)) and not _plain_list(v):
            return False
    return True


def _fl(r):
    """float array -> SArr of constants (nan kept native)."""
    if r.size > 20000 or (r.size and np.isnan(r).any()):
        return r
    return sarr(r)


def _filled(shape, v, native, dtype):
    if not _isfloat(dtype):
        return nat(native(shape, dtype=dtype))
    o = np.empty(shape, dtype=object)
    if o.ndim:
        o[...] = np.array([v] * o.size + [None], dtype=object)[:-1].reshape(
            o.shape)
    else:
        o[()] = v
    return o.view(SArr)


def _like(a, dtype, v):
    shp = SymNp.shape(a)
    if dtype is None:
        if has_sym(a):
            o = _obj(a).reshape(-1)
            if o.size and all(isinstance(x, T) and x.sort == 'B'
                              for x in o):
                return np.full(shp, bool(v))
            dtype = float
        else:
            dtype = np.asarray(a).dtype
    return _filled(shp, tm.const(Fraction(v)),
                   np.zeros if v == 0 else np.ones, dtype)


symnp = SymNp()


class ConcNp(object):
    """numpy with recognisable garbage in uninitialised memory (replays)."""

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def empty(shape, dtype=float, **k):
        a = np.empty(shape, dtype=dtype, **k)
        if a.dtype.kind == 'f':
            a.fill(7.7e6)
        elif a.dtype.kind in 'iu':
            a.fill(77)
        return a


concnp = ConcNp()
