"""Hash-consed symbolic terms (reals, integers, booleans) with constant folding.

The objects of class ``T`` are what the code under test computes with: they
overload the python operators and provide the methods numpy's object ufuncs
look up (``log``, ``exp``, ``sqrt`` ...).  A branch on a symbolic boolean
(``__bool__``) asks the active path explorer (see ``engine.py``).
"""
import math
import numbers
from fractions import Fraction
from functools import lru_cache
import numpy as np

INF = float('inf')

_intern = {}
_counter = [0]


class Unsupported(Exception):
    """The engine cannot represent an operation (never a verdict)."""


class PathAbort(BaseException):
    """Path is infeasible or cut by an assumption."""


CURRENT = None      # the active explorer (set by engine.Explorer)


def reset():
    _intern.clear()
    _nf_cache_clear()


_clear_hooks = []


def _nf_cache_clear():
    for h in _clear_hooks:
        h()


class T(object):
    __slots__ = ('op', 'args', 'sort', 'id', 'val', '_nf', '__weakref__')
    __array_priority__ = 1000.0

    def __hash__(self):
        return self.id

    # ---------------------------------------------------------------- arith
    def __add__(self, o):
        return _bin(add, self, o)

    def __radd__(self, o):
        return _bin(add, o, self)

    def __sub__(self, o):
        return _bin(sub, self, o)

    def __rsub__(self, o):
        return _bin(sub, o, self)

    def __mul__(self, o):
        return _bin(mul, self, o)

    def __rmul__(self, o):
        return _bin(mul, o, self)

    def __truediv__(self, o):
        return _bin(div, self, o)

    def __rtruediv__(self, o):
        return _bin(div, o, self)

    def __floordiv__(self, o):
        return _bin(floordiv, self, o)

    def __rfloordiv__(self, o):
        return _bin(floordiv, o, self)

    def __mod__(self, o):
        return _bin(mod, self, o)

    def __rmod__(self, o):
        return _bin(mod, o, self)

    def __pow__(self, o):
        return _bin(power, self, o)

    def __rpow__(self, o):
        return _bin(power, o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    # ----------------------------------------------------------- comparison
    def __lt__(self, o):
        return _bin(lt, self, o)

    def __le__(self, o):
        return _bin(le, self, o)

    def __gt__(self, o):
        return _bin(gt, self, o)

    def __ge__(self, o):
        return _bin(ge, self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return False
        return _bin(eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return True
        return _bin(ne, self, o)

    # ----------------------------------------------------------- boolean
    def __and__(self, o):
        return _bin(and_, self, o)

    __rand__ = __and__

    def __or__(self, o):
        return _bin(or_, self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return _bin(xor_, self, o)

    __rxor__ = __xor__

    def __invert__(self):
        if self.sort == 'B':
            return not_(self)
        raise Unsupported('bitwise invert')

    def logical_not(self):
        return not_(as_bool(self))

    def logical_and(self, o):
        return and_(as_bool(self), as_bool(lift(o)))

    def logical_or(self, o):
        return or_(as_bool(self), as_bool(lift(o)))

    # ----------------------------------------------------------- conversions
    def __bool__(self):
        b = as_bool(self)
        if b.op == 'const':
            return bool(b.val)
        if CURRENT is None:
            raise Unsupported('branch on symbolic value outside of a path')
        return CURRENT.decide(b)

    def __index__(self):
        if self.op == 'const' and self.sort in ('I', 'B'):
            return int(self.val)
        if self.sort == 'I' and CURRENT is not None:
            return CURRENT.concretize(self)
        if self.sort == 'R' and CURRENT is not None:
            raise TypeError('symbolic real used as an index')
        raise Unsupported('index')

    def __int__(self):
        if self.op == 'const':
            return int(self.val)
        if CURRENT is not None:
            return CURRENT.concretize(to_int(self))
        raise Unsupported('int() of a symbolic real')

    def __float__(self):
        if self.op == 'const':
            return float(self.val)
        raise Unsupported('float() of a symbolic value')

    def __round__(self, n=None):
        if not n:
            return self.rint()
        f = const(Fraction(10) ** n)
        return div(mul(self, f).rint(), f)

    def __format__(self, spec):
        if self.op == 'const':
            try:
                return format(float(self.val), spec)
            except Exception:
                return str(self)
        return '<sym>'

    def __repr__(self):
        return show(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    # numpy object-ufunc hooks and tensor-like conveniences
    def log(self):
        return fn('log', self)

    def log1p(self):
        return fn('log', add(ONE, self))

    def log10(self):
        return div(fn('log', self), fn('log', const(10)))

    def log2(self):
        return div(fn('log', self), fn('log', const(2)))

    def exp(self):
        return fn('exp', self)

    def expm1(self):
        return sub(fn('exp', self), ONE)

    def sqrt(self):
        return fn('sqrt', self)

    def square(self):
        return mul(self, self)

    def sin(self):
        return fn('sin', self)

    def cos(self):
        return fn('cos', self)

    def tan(self):
        if self.op == 'arctan':
            return self.args[0]
        return div(fn('sin', self), fn('cos', self))

    def arcsin(self):
        return fn('arcsin', self)

    def arccos(self):
        return fn('arccos', self)

    def arctan(self):
        return fn('arctan', self)

    def arctan2(self, o):
        return fn('arctan2', self, lift(o))

    def tanh(self):
        return fn('tanh', self)

    def erf(self):
        return fn('erf', self)

    def reciprocal(self):
        return div(ONE, self)

    def deg2rad(self):
        return div(mul(self, PI), const(180))

    radians = deg2rad

    def rad2deg(self):
        return div(mul(self, const(180)), PI)

    degrees = rad2deg

    def conjugate(self):
        return self

    def floor(self):
        return floor_(self)

    def ceil(self):
        return neg(floor_(neg(self)))

    def rint(self):
        # round half to even
        h = add(to_real(self), const(Fraction(1, 2)))
        f = floor_(h)
        return ite(and_(eq(h, f), ne(mod(f, const(Fraction(2))), ZERO)),
                   sub(f, ONE), f)

    def trunc(self):
        return ite(ge(self, ZERO), floor_(self), neg(floor_(neg(self))))

    def __trunc__(self):
        return int(self)

    def sinh(self):
        return mul(const(Fraction(1, 2)), sub(fn('exp', self),
                                              fn('exp', neg(self))))

    def cosh(self):
        return mul(const(Fraction(1, 2)), add(fn('exp', self),
                                              fn('exp', neg(self))))

    def exp2(self):
        return power(const(Fraction(2)), self)

    def signbit(self):
        return lt(self, ZERO)

    def sign(self):
        return ite(gt(self, ZERO), ONE, ite(lt(self, ZERO), neg(ONE), ZERO))

    def isnan(self):
        return TRUE if is_nan(self) else FALSE

    def isfinite(self):
        if self.op == 'const' and isinstance(self.val, float):
            return const(math.isfinite(self.val))
        return TRUE

    def isinf(self):
        return FALSE if is_nan(self) else not_(self.isfinite())

    def item(self):
        return self

    def numpy(self):
        return self

    def astype(self, dtype, *a, **k):
        kind = np.dtype(dtype).kind
        if kind == 'b':
            return as_bool(self)
        if kind in 'iu' and self.sort == 'R':
            return to_int(self)
        return as_num(self)

    def copy(self):
        return self

    def any(self, *a, **k):
        return as_bool(self)

    def all(self, *a, **k):
        return as_bool(self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def dtype(self):
        return np.dtype('float64') if self.sort == 'R' else (
            np.dtype('int64') if self.sort == 'I' else np.dtype(bool))


numbers.Number.register(T)


def _mk(op, args, sort, val=None):
    key = (op, tuple([a.id for a in args]), sort,
           None if val is None else (type(val), val))
    t = _intern.get(key)
    if t is None:
        t = object.__new__(T)
        t.op = op
        t.args = tuple(args)
        t.sort = sort
        t.val = val
        t._nf = None
        _counter[0] += 1
        t.id = _counter[0]
        _intern[key] = t
    return t


# ------------------------------------------------------------------ constants
_SQ_CANDS = None


def _build_cands():
    """Closed forms a float constant may stand for."""
    c = []
    pi = math.pi
    for p in range(1, 13):
        for q in (1, 2, 3, 4, 6, 8, 12, 16, 180, 360):
            c.append((p / q * pi, ('pi', Fraction(p, q), 1)))
            c.append((p / q / pi, ('pi', Fraction(p, q), -1)))
    c.append((180. / pi, ('pi', Fraction(180), -1)))
    c.append((360. / pi, ('pi', Fraction(360), -1)))
    seen = set()
    for p in range(1, 13):
        for q in range(1, 13):
            f = Fraction(p, q)
            if f in seen:
                continue
            seen.add(f)
            v = math.sqrt(f)
            if v != int(v * 1000000) / 1000000.:
                c.append((v, ('sqrt', f, 0)))
            if p <= 8 and q <= 8:
                c.append((math.sqrt(f * pi), ('sqrt', f, 1)))
                c.append((math.sqrt(f / pi), ('sqrt', f, -1)))
                c.append((0.5 * math.log(f * pi), ('hlog', f, 1)))
                c.append((math.log(f * pi), ('log', f, 1)))
                c.append((2 * math.log(f * pi), ('log2', f, 1)))
                if f > 1:
                    c.append((math.log(f), ('log', f, 0)))
                    c.append((0.5 * math.log(f), ('hlog', f, 0)))
    c = [x for x in c if abs(x[0]) > 1e-3]
    c.sort(key=lambda x: x[0])
    return c


def _closed_form(f, tol):
    """Return a term for |f| if it matches a known irrational constant."""
    global _SQ_CANDS
    if _SQ_CANDS is None:
        _SQ_CANDS = _build_cands()
        import bisect
        _closed_form.keys = [x[0] for x in _SQ_CANDS]
    import bisect
    i = bisect.bisect_left(_closed_form.keys, f)
    best = None
    for j in range(max(0, i - 3), min(len(_SQ_CANDS), i + 3)):
        v, spec = _SQ_CANDS[j]
        if abs(v - f) <= tol * abs(v):
            best = spec
            break
    if best is None:
        return None
    kind, q, e = best
    if kind == 'pi':
        base = const(q)
        return mul(base, PI) if e == 1 else div(base, PI)
    inner = const(q)
    if e == 1:
        inner = mul(inner, PI)
    elif e == -1:
        inner = div(inner, PI)
    if kind == 'sqrt':
        return fn('sqrt', inner)
    if kind == 'log':
        return fn('log', inner)
    if kind == 'hlog':
        return mul(const(Fraction(1, 2)), fn('log', inner))
    if kind == 'log2':
        return mul(const(2), fn('log', inner))


_snap_cache = {}


def snap(f, single=False):
    """Read a float constant as the closed form it was written for.

    double: the shortest decimal if it has at most 13 significant digits,
    else a small fraction / multiple of pi / square root / log, else the exact
    binary value.  single (float32): same with 7 significant digits.
    """
    key = (float(f), single)
    r = _snap_cache.get(key)
    if r is not None:
        return r
    r = _snap(f, single)
    _snap_cache[key] = r
    return r


def _snap(f, single):
    f64 = float(f)
    if not math.isfinite(f64):
        return _mk('const', (), 'R', f64)
    if f64 == 0:
        return ZERO
    if f64 == int(f64) and abs(f64) < 2**53:
        return const(Fraction(int(f64)))
    if single:
        s = repr(np.float32(f)).replace('np.float32(', '').rstrip(')')
        s = np.format_float_scientific(np.float32(f), unique=True)
        maxdig = 6
        tol = 2.0e-7
        maxden = 400
    else:
        s = np.format_float_scientific(np.float64(f64), unique=True)
        maxdig = 13
        tol = 6e-16
        maxden = 3000
    digs = s.split('e')[0].replace('.', '').replace('-', '').lstrip('0')
    digs = digs.rstrip('0')
    if len(digs) <= maxdig:
        return const(Fraction(s))
    a = abs(f64)
    cf = _closed_form(a, tol)
    if cf is not None:
        return cf if f64 > 0 else neg(cf)
    fr = Fraction(a).limit_denominator(maxden)
    if fr != 0 and abs(float(fr) - a) <= tol * a:
        return const(fr if f64 > 0 else -fr)
    if single and len(digs) <= 7:
        return const(Fraction(s))
    if not single and len(digs) <= 15:
        return const(Fraction(s))
    # 1-ulp noise around a short decimal (e.g. 0.1+0.2)
    if not single:
        s2 = '%.14e' % f64
        d2 = s2.split('e')[0].replace('.', '').replace('-', '').rstrip('0')
        if len(d2) <= 10 and abs(float(s2) - f64) <= 6e-16 * a:
            return const(Fraction(s2))
    return const(Fraction(f64))


def const(v):
    if isinstance(v, T):
        return v
    if isinstance(v, (bool, np.bool_)):
        return _mk('const', (), 'B', bool(v))
    if isinstance(v, (int, np.integer)):
        return _mk('const', (), 'I', Fraction(int(v)))
    if isinstance(v, Fraction):
        return _mk('const', (), 'R', v)
    if isinstance(v, np.float32):
        return snap(v, single=True)
    if isinstance(v, (float, np.floating)):
        return snap(v)
    raise Unsupported('cannot lift {!r} ({})'.format(v, type(v)))


def lift(v):
    if isinstance(v, T):
        return v
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return lift(v.item() if v.dtype != np.float32 else np.float32(v))
    return const(v)


def _bin(f, a, b):
    # let arrays handle the operation
    if isinstance(a, np.ndarray) and a.ndim or \
            isinstance(b, np.ndarray) and b.ndim:
        return NotImplemented
    if isinstance(a, (list, tuple, dict, str, type(None))) or \
            isinstance(b, (list, tuple, dict, str, type(None))):
        return NotImplemented
    return f(lift(a), lift(b))


def var(name, sort='R'):
    return _mk('var', (), sort, name)


ZERO = ONE = TRUE = FALSE = PI = None


def _init():
    global ZERO, ONE, TRUE, FALSE, PI
    ZERO = _mk('const', (), 'R', Fraction(0))
    ONE = _mk('const', (), 'R', Fraction(1))
    TRUE = _mk('const', (), 'B', True)
    FALSE = _mk('const', (), 'B', False)
    PI = _mk('pi', (), 'R')


_init()


def is_const(t, v=None):
    return t.op == 'const' and (v is None or t.val == v)


def is_nan(t):
    return t.op == 'const' and isinstance(t.val, float) and t.val != t.val


def is_inf(t):
    return t.op == 'const' and isinstance(t.val, float)


def as_num(t):
    if t.sort == 'B':
        if t.op == 'const':
            return const(int(t.val))
        return ite(t, const(1), const(0))
    return t


def as_bool(t):
    t = lift(t)
    if t.sort == 'B':
        return t
    return ne(t, const(0))


def _nsort(a, b):
    return 'I' if a.sort == 'I' and b.sort == 'I' else 'R'


def _fold(v, sort):
    if isinstance(v, float):
        return _mk('const', (), 'R', v)
    return _mk('const', (), sort, Fraction(v))


def add(a, b):
    a, b = as_num(a), as_num(b)
    s = _nsort(a, b)
    if a.op == 'const' and b.op == 'const':
        return _fold(_iadd(a.val, b.val), s)
    if is_inf(a) or is_inf(b):
        return a if is_inf(a) else b
    if a.op == 'const' and a.val == 0:
        return b if b.sort == s else to_real(b)
    if b.op == 'const' and b.val == 0:
        return a if a.sort == s else to_real(a)
    if a.id > b.id:
        a, b = b, a
    return _mk('add', (a, b), s)


def _iadd(x, y):
    if isinstance(x, float) or isinstance(y, float):
        return float(x) + float(y)
    return x + y


def to_real(t):
    if t.sort == 'I':
        if t.op == 'const':
            return _mk('const', (), 'R', t.val)
        return _mk('toreal', (t,), 'R')
    return t


def neg(a):
    a = as_num(a)
    if a.op == 'const':
        return _fold(-a.val, a.sort)
    return mul(const(-1) if a.sort == 'I' else const(Fraction(-1)), a)


def sub(a, b):
    if a is b and not is_inf(a):
        return ZERO if a.sort == 'R' else const(0)
    return add(a, neg(b))


def mul(a, b):
    a, b = as_num(a), as_num(b)
    s = _nsort(a, b)
    if a.op == 'const' and b.op == 'const':
        x, y = a.val, b.val
        if isinstance(x, float) or isinstance(y, float):
            if x == 0 or y == 0:
                raise Unsupported('0 * inf')
            return _fold(float(x) * float(y), s)
        return _fold(x * y, s)
    for x, y in ((a, b), (b, a)):
        if x.op == 'const':
            if is_inf(x):
                raise Unsupported('symbolic * inf')
            if x.val == 0:
                return ZERO if s == 'R' else const(0)
            if x.val == 1:
                return y if y.sort == s else to_real(y)
            if y.op == 'mul' and y.args[0].op == 'const':
                return mul(_fold(x.val * y.args[0].val, s), y.args[1])
    if b.op == 'const':
        a, b = b, a
    elif a.op != 'const' and a.id > b.id:
        a, b = b, a
    return _mk('mul', (a, b), s)


def div(a, b):
    a, b = to_real(as_num(a)), to_real(as_num(b))
    if b.op == 'const':
        if b.val == 0:
            if a.op == 'const':
                if a.val == 0:
                    raise Unsupported('0/0')
                return _mk('const', (), 'R', INF if a.val > 0 else -INF)
            raise Unsupported('division by zero constant')
        if is_inf(b):
            return ZERO
        if is_inf(a):
            return _fold(a.val * float(b.val), 'R')
        return mul(_fold(1 / b.val, 'R'), a)
    if a.op == 'const' and a.val == 0:
        return ZERO
    if a is b:
        return ONE
    return _mk('div', (a, b), 'R')


def floordiv(a, b):
    a, b = as_num(a), as_num(b)
    if a.op == 'const' and b.op == 'const' and not is_inf(a) \
            and not is_inf(b):
        return _fold(a.val // b.val, _nsort(a, b))
    if _nsort(a, b) == 'I':
        return _mk('idiv', (a, b), 'I')
    return to_real(floor_(div(a, b)))


def floor_(a):
    a = as_num(a)
    if a.sort == 'I':
        return a
    if a.op == 'const':
        return _fold(math.floor(a.val), 'R')
    return _mk('toreal', (_mk('floor', (a,), 'I'),), 'R')


def to_int(a):
    """Truncation towards zero."""
    a = as_num(a)
    if a.sort == 'I':
        return a
    if a.op == 'const':
        return const(int(a.val))

    def fl(v):
        v = floor_(v)
        return v.args[0] if v.op == 'toreal' else const(int(v.val))
    return ite(ge(a, ZERO), fl(a), neg(fl(neg(a))))


def mod(a, b):
    a, b = as_num(a), as_num(b)
    if a.op == 'const' and b.op == 'const':
        return _fold(a.val % b.val, _nsort(a, b))
    if _nsort(a, b) == 'I':
        return _mk('imod', (a, b), 'I')
    a, b = to_real(a), to_real(b)
    # python / numpy remainder: a - b*floor(a/b)
    return sub(a, mul(b, floor_(div(a, b))))


def power(a, b):
    a, b = as_num(a), as_num(b)
    if b.op == 'const' and not is_inf(b):
        e = b.val
        if e == 0:
            return ONE if _nsort(a, b) == 'R' else const(1)
        if e.denominator == 1 and abs(e) <= 8:
            n = int(abs(e))
            r = a
            for _ in range(n - 1):
                r = mul(r, a)
            if e < 0:
                return div(ONE, r)
            return r if b.sort == 'I' or r.sort == 'R' else to_real(r)
        if e.denominator == 2:
            return power(fn('sqrt', a), const(int(e.numerator)))
    if a.op == 'const' and a.val == 1:
        return ONE
    # a**b = exp(b*log(a)) for a > 0
    return fn('exp', mul(b, fn('log', a)))


def absolute(a):
    a = as_num(a)
    if a.op == 'const':
        return _fold(abs(a.val), a.sort)
    if a.op in ('sqrt', 'exp', 'pi'):
        return a
    return ite(ge(a, const(0)), a, neg(a))


def maximum(a, b):
    a, b = as_num(a), as_num(b)
    if is_inf(a):
        return a if a.val > 0 else b
    if is_inf(b):
        return b if b.val > 0 else a
    if a is b:
        return a
    return ite(ge(a, b), a, b)


def minimum(a, b):
    a, b = as_num(a), as_num(b)
    if is_inf(a):
        return b if a.val > 0 else a
    if is_inf(b):
        return a if b.val > 0 else b
    if a is b:
        return a
    return ite(le(a, b), a, b)


# ----------------------------------------------------------------- comparison
def _cmp(op, a, b):
    a, b = as_num(a), as_num(b)
    if is_nan(a) or is_nan(b):
        return FALSE
    if a.op == 'const' and b.op == 'const':
        x, y = a.val, b.val
        return const({'lt': x < y, 'le': x <= y, 'eq': x == y}[op])
    if is_inf(a):
        pos = a.val > 0
        return const({'lt': not pos, 'le': not pos, 'eq': False}[op])
    if is_inf(b):
        pos = b.val > 0
        return const({'lt': pos, 'le': pos, 'eq': False}[op])
    if a is b:
        return const(op != 'lt')
    if b.op == 'const' and b.val <= 0 and (
            op == 'lt' and a.op in ('sqrt', 'exp') or
            op == 'le' and a.op == 'exp'):
        return FALSE
    if op == 'eq' and a.id > b.id:
        a, b = b, a
    if a.sort != b.sort:
        a, b = to_real(a), to_real(b)
    return _mk(op, (a, b), 'B')


def lt(a, b):
    return _cmp('lt', a, b)


def le(a, b):
    return _cmp('le', a, b)


def gt(a, b):
    return _cmp('lt', b, a)


def ge(a, b):
    return _cmp('le', b, a)


def eq(a, b):
    if a.sort == 'B' and b.sort == 'B':
        if a is b:
            return TRUE
        return not_(xor_(a, b))
    return _cmp('eq', a, b)


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    if a.sort != 'B':
        a = as_bool(a)
    if a.op == 'const':
        return const(not a.val)
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), 'B')


def and_(a, b):
    a, b = as_bool(a), as_bool(b)
    for x, y in ((a, b), (b, a)):
        if x.op == 'const':
            return y if x.val else FALSE
    if a is b:
        return a
    if a.op == 'not' and a.args[0] is b or b.op == 'not' and b.args[0] is a:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk('and', (a, b), 'B')


def or_(a, b):
    return not_(and_(not_(as_bool(a)), not_(as_bool(b))))


def xor_(a, b):
    a, b = as_bool(a), as_bool(b)
    for x, y in ((a, b), (b, a)):
        if x.op == 'const':
            return not_(y) if x.val else y
    if a is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk('xor', (a, b), 'B')


def conj(bs):
    r = TRUE
    for b in bs:
        r = and_(r, lift(b))
    return r


def disj(bs):
    r = FALSE
    for b in bs:
        r = or_(r, lift(b))
    return r


def implies(a, b):
    return or_(not_(lift(a)), lift(b))


def ite(c, a, b):
    c = as_bool(c)
    a, b = lift(a), lift(b)
    if c.op == 'const':
        return a if c.val else b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.sort == 'B' and b.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    a, b = as_num(a), as_num(b)
    if is_inf(a) or is_inf(b):
        return _mk('ite', (c, a, b), 'R')
    if a.sort != b.sort:
        a, b = to_real(a), to_real(b)
        if a is b:
            return a
    # ite(c, ite(c, x, y), b) -> ite(c, x, b)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk('ite', (c, a, b), a.sort)


# ------------------------------------------------------------------ functions
_REAL_FN = {
    'log': math.log, 'exp': math.exp, 'sqrt': math.sqrt, 'sin': math.sin,
    'cos': math.cos, 'arcsin': math.asin, 'arccos': math.acos,
    'arctan': math.atan, 'tanh': math.tanh, 'erf': math.erf,
    'lgamma': math.lgamma, 'digamma': None, 'arctan2': math.atan2,
    'erfinv': None, 'tan': math.tan, 'ndtri': None,
}


def _digamma(x):
    r = 0.
    if x <= 0:
        return _digamma(1. - x) - math.pi / math.tan(math.pi * x)
    while x < 8:
        r -= 1. / x
        x += 1.
    q = 1. / (x * x)
    return r + math.log(x) - .5 / x - q * (
        1 / 12. - q * (1 / 120. - q * (1 / 252. - q * (1 / 240. - q / 132.))))


def _erfinv(x):
    from scipy.special import erfinv
    return float(erfinv(x))


def _ndtri(x):
    from scipy.special import ndtri
    return float(ndtri(x))


_REAL_FN['digamma'] = _digamma
_REAL_FN['erfinv'] = _erfinv
_REAL_FN['ndtri'] = _ndtri


def fn(name, *args):
    args = [to_real(as_num(lift(a))) for a in args]
    a = args[0]
    if a.op == 'const':
        v = a.val
        if name == 'exp':
            if is_inf(a):
                return a if v > 0 else ZERO
            if v == 0:
                return ONE
        elif name == 'log':
            if v == 1:
                return ZERO
            if is_inf(a) and v > 0:
                return a
            if v == 0:
                return _mk('const', (), 'R', -INF)
        elif name == 'sqrt' and not is_inf(a):
            if v >= 0:
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n * n == v.numerator and d * d == v.denominator:
                    return const(Fraction(n, d))
        elif name in ('sin', 'tanh', 'erf', 'arcsin', 'arctan', 'erfinv'):
            if v == 0:
                return ZERO
            if is_inf(a) and name in ('tanh', 'erf'):
                return const(Fraction(1 if v > 0 else -1))
        elif name == 'cos':
            if v == 0:
                return ONE
        elif name == 'lgamma':
            if not is_inf(a) and v in (1, 2):
                return ZERO
    if name == 'log' and a.op == 'exp':
        return a.args[0]
    if name in ('erf', 'tanh', 'sin', 'erfinv', 'arcsin') \
            and _neg_lead(a):
        return neg(fn(name, neg(a)))
    if name == 'cos' and _neg_lead(a):
        return fn(name, neg(a))
    if name == 'erf' and a.op == 'erfinv':
        return a.args[0]
    if name == 'erfinv' and a.op == 'erf':
        return a.args[0]
    if name == 'sin' and a.op == 'arcsin':
        return a.args[0]
    if name == 'cos' and a.op == 'arccos':
        return a.args[0]
    if name == 'sin' and a.op == 'arccos':
        u = a.args[0]
        return fn('sqrt', sub(ONE, mul(u, u)))
    if name == 'cos' and a.op == 'arcsin':
        u = a.args[0]
        return fn('sqrt', sub(ONE, mul(u, u)))
    if name in ('sin', 'cos') and a.op == 'arctan2':
        y, x = a.args
        n = fn('sqrt', add(mul(x, x), mul(y, y)))
        return div(y if name == 'sin' else x, n)
    return _mk(name, args, 'R')


def _neg_lead(a):
    return (a.op == 'const' and a.val < 0) or (
        a.op == 'mul' and a.args[0].op == 'const' and a.args[0].val < 0)


UFS = set(_REAL_FN)


# ------------------------------------------------------------------ utilities
def show(t, depth=6):
    if t.op == 'const':
        if t.sort == 'B':
            return str(t.val)
        v = t.val
        if isinstance(v, Fraction) and v.denominator > 10**6:
            return '%.17g' % float(v)
        return str(v)
    if t.op == 'var':
        return str(t.val)
    if depth == 0:
        return '...'
    return '{}({})'.format(
        t.op, ', '.join(show(a, depth - 1) for a in t.args))


def free_vars(ts):
    seen, out, stack = set(), [], list(ts)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'var':
            out.append(t)
        stack.extend(t.args)
    return out


def evaluate(t, env, cache=None):
    """Numerical (double precision) value of a term for a variable valuation."""
    if cache is None:
        cache = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in cache:
            stack.pop()
            continue
        if x.op == 'ite':
            c = cache.get(x.args[0].id)
            if c is None:
                stack.append(x.args[0])
                continue
            br = x.args[1] if c else x.args[2]
            if br.id not in cache:
                stack.append(br)
                continue
            cache[x.id] = cache[br.id]
            stack.pop()
            continue
        pend = [a for a in x.args if a.id not in cache]
        if pend:
            stack.extend(pend)
            continue
        v = [cache[a.id] for a in x.args]
        cache[x.id] = _eval1(x, v, env)
        stack.pop()
    return cache[t.id]


def _eval1(x, v, env):
    op = x.op
    if op == 'const':
        return x.val if x.sort == 'B' else float(x.val)
    if op == 'var':
        return env[x.val]
    if op == 'pi':
        return math.pi
    try:
        if op == 'add':
            return v[0] + v[1]
        if op == 'mul':
            return v[0] * v[1]
        if op == 'div':
            return v[0] / v[1]
        if op == 'toreal':
            return float(v[0])
        if op == 'idiv':
            return v[0] // v[1]
        if op == 'imod':
            return v[0] % v[1]
        if op == 'floor':
            return math.floor(v[0])
        if op == 'lt':
            return v[0] < v[1]
        if op == 'le':
            return v[0] <= v[1]
        if op == 'eq':
            return v[0] == v[1]
        if op == 'not':
            return not v[0]
        if op == 'and':
            return bool(v[0] and v[1])
        if op == 'xor':
            return bool(v[0]) != bool(v[1])
        f = _REAL_FN.get(op)
        if f is None:
            f = EXTRA_EVAL[op]
        return f(*v)
    except (ZeroDivisionError, ValueError, OverflowError):
        return float('nan')


EXTRA_EVAL = {}
