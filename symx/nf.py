"""Normal form of real terms: Laurent polynomials over canonical atoms,
divided by a product of polynomial factors.

Used (a) to give uninterpreted applications a canonical identity, so that
``f(a+b)`` and ``f(b+a)`` become the same solver variable, and (b) to simplify
an equality before it is handed to the solver.  All rewrites are exact
(rational arithmetic); rewrites of log/exp/sqrt use the positivity of their
arguments where it is known.
"""
from fractions import Fraction
import itertools
import math
from . import terms as tm

MAX_MONOS = 6000

_atoms = {}          # key -> atom id
_info = {}           # atom id -> (kind, data)
_pos = {}            # atom id -> bool (known positive)
_cnt = itertools.count(1)
_nf_memo = {}
_bk_memo = {}
_ub = {}             # atom id -> upper bound (of an atom known to be >= 0)
_nn = set()          # atoms known to be >= 0 (and not known to be > 0)
POSITIVE_VARS = set()     # names of variables declared > 0
NONNEG_VARS = set()


def clear():
    _atoms.clear()
    _info.clear()
    _pos.clear()
    _nn.clear()
    _ub.clear()
    _nf_memo.clear()
    _bk_memo.clear()
    POSITIVE_VARS.clear()
    NONNEG_VARS.clear()


tm._clear_hooks.append(clear)


class TooBig(Exception):
    pass


def _atom(key, info, pos):
    i = _atoms.get(key)
    if i is None:
        i = next(_cnt)
        _atoms[key] = i
        _info[i] = info
        _pos[i] = pos
    return i


# A normal form is (num, den): num = {mono: coeff}, mono = tuple of
# (atom, exponent) sorted by atom (exponents may be negative),
# den = tuple of (polyfactor atom, exponent) sorted.
def _padd(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def _pmul_raw(p, q):
    if len(p) * len(q) > MAX_MONOS * 4:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > MAX_MONOS:
        raise TooBig()
    return r


def _reduce(p):
    """Apply sqrt^2 -> arg and sin^2 -> 1-cos^2 (only polynomial args)."""
    todo = None
    for m in p:
        for a, e in m:
            k = _info[a][0]
            if k == 'sqrt' and (e >= 2 or e < 0):
                todo = True
            elif k == 'sin' and e >= 2:
                todo = True
    if not todo:
        return p, ()
    out = ({}, ())
    for m, c in p.items():
        rest = []
        fac = ({(): c}, ())
        for a, e in m:
            k, data = _info[a][:2]
            if k == 'sqrt' and (e >= 2 or e < 0):
                q, r = divmod(e, 2)
                argn = data
                fac = mul(fac, ipow(argn, q))
                if r:
                    rest.append((a, 1))
            elif k == 'sin' and e >= 2:
                q, r = divmod(e, 2)
                ca = data
                fac = mul(fac, ipow(({(): Fraction(1),
                                      ((ca, 2),): Fraction(-1)}, ()), q))
                if r:
                    rest.append((a, 1))
            else:
                rest.append((a, e))
        rest = tuple(sorted(rest))
        n, d = fac
        n = _pmul_raw(n, {rest: Fraction(1)})
        n, d2 = _reduce(n)
        out = add(out, (n, _dmul(d, d2)))
    return out


def _dmul(d1, d2):
    if not d1:
        return d2
    if not d2:
        return d1
    d = dict(d1)
    for a, e in d2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def _norm(num, den):
    if not num:
        return ({}, ())
    if not den:
        return (num, ())
    # cancel polynomial factors
    dd = []
    for f, e in den:
        fp = _info[f][1]
        while e > 0:
            q = _exact_div(num, fp)
            if q is None:
                break
            num = q
            e -= 1
        for k in range(e, 0, -1):
            q = _group_div(num, f, k)
            if q is not None:
                num = q
                e -= k
                break
        if e:
            dd.append((f, e))
    return (num, tuple(dd))


_fpow = {}
tm._clear_hooks.append(_fpow.clear)


def _group_div(num, f, k):
    """num / f^k where num, sorted by the atoms that do not occur in f, has
    only constant multiples of the (trigonometrically reduced) f^k."""
    fp = _info[f][1]
    if not any(_info[a][0] == 'sin' or _info[a][0] == 'sqrt'
               for m in fp for a, _ in m):
        return None
    r = _fpow.get((f, k))
    if r is None:
        try:
            p = {(): Fraction(1)}
            for _ in range(k):
                p, e = _reduce(_pmul_raw(p, fp))
                if e:
                    p = None
                    break
        except TooBig:
            p = None
        r = _fpow[f, k] = (p, {a for m in p for a, _ in m}) if p else (
            None, None)
    p, inner = r
    if not p or len(num) % len(p):
        return None
    groups = {}
    for m, c in num.items():
        o = tuple(x for x in m if x[0] not in inner)
        i = tuple(x for x in m if x[0] in inner)
        groups.setdefault(o, {})[i] = c
    q = {}
    m0 = next(iter(p))
    for o, g in groups.items():
        if len(g) != len(p) or m0 not in g:
            return None
        c = g[m0] / p[m0]
        for m, v in p.items():
            if g.get(m, 0) != c * v:
                return None
        q[o] = c
    return q


def _exact_div(p, f):
    """p / f if f divides p exactly (Laurent polynomials), else None."""
    if len(p) < len(f) and len(p) != 1:
        pass
    if len(f) < 2 or len(p) < 2:
        return None
    if len(p) > 400:
        return None
    order = _mono_key(sorted({a for u in (p, f) for m in u for a, _ in m}))
    lf = max(f, key=order)
    cf = f[lf]
    rem = dict(p)
    q = {}
    inv = tuple((a, -e) for a, e in lf)
    minexp = {}
    steps = 0
    bound = 2 * len(p) + 10
    while rem:
        steps += 1
        if steps > bound:
            return None
        lr = max(rem, key=order)
        m = _mmul(lr, inv)
        c = rem[lr] / cf
        q[m] = q.get(m, 0) + c
        rem = _padd(rem, {_mmul(m, k): v for k, v in f.items()}, -c)
        if len(rem) > len(p) + len(f) * 3:
            return None
    return q


def add(x, y):
    (n1, d1), (n2, d2) = x, y
    if not n1:
        return y
    if not n2:
        return x
    if d1 == d2:
        n = _padd(n1, n2)
        return _norm(n, d1)
    a, b = dict(d1), dict(d2)
    l = dict(a)
    for f, e in b.items():
        l[f] = max(l.get(f, 0), e)
    m1 = n1
    m2 = n2
    for f, e in l.items():
        fp = _info[f][1]
        for _ in range(e - a.get(f, 0)):
            m1 = _pmul_raw(m1, fp)
        for _ in range(e - b.get(f, 0)):
            m2 = _pmul_raw(m2, fp)
    m1, e1 = _reduce(m1)
    m2, e2 = _reduce(m2)
    den = tuple(sorted(l.items()))
    if e1 or e2:
        return add((m1, _dmul(den, e1)), (m2, _dmul(den, e2)))
    return _norm(_padd(m1, m2), den)


def mul(x, y):
    (n1, d1), (n2, d2) = x, y
    if not n1 or not n2:
        return ({}, ())
    n = _pmul_raw(n1, n2)
    n, e = _reduce(n)
    return _norm(n, _dmul(_dmul(d1, d2), e))


def scale(x, c):
    if c == 0:
        return ({}, ())
    return ({m: v * c for m, v in x[0].items()}, x[1])


def _lead(p):
    return p[max(p)]


def _primitive(p):
    """Split p = coeff * monomial * q with q having leading coeff 1 and no
    common monomial factor."""
    c = _lead(p)
    # common monomial (Laurent gcd)
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            for a in list(common):
                if a in d:
                    common[a] = min(common[a], d[a])
                else:
                    common[a] = min(common[a], 0)
            for a in d:
                if a not in common:
                    common[a] = min(0, d[a])
    common = {a: e for a, e in common.items()
              if e and _info[a][0] != 'sqrt'}
    cm = tuple(sorted(common.items()))
    inv = tuple((a, -e) for a, e in cm)
    q = {_mmul(m, inv): v for m, v in p.items()}
    c = _lead(q)
    q = {m: v / c for m, v in q.items()}
    return c, cm, q


def _polyfactor(q):
    key = ('poly', frozenset(q.items()))
    return _atom(key, ('poly', q), _poly_pos(q))


def _mono_pos(m):
    return all(_pos[a] or False for a, e in m)


def _mono_nonneg(m):
    return all(_pos[a] or e % 2 == 0 or (a in _nn and e > 0)
               for a, e in m)


def inv(x):
    n, d = x
    if not n:
        raise ZeroDivisionError()
    num = {(): Fraction(1)}
    for f, e in d:
        for _ in range(e):
            num = _pmul_raw(num, _info[f][1])
    num, extra = _reduce(num)
    if len(n) == 1:
        (m, c), = n.items()
        invm = {tuple((a, -e) for a, e in m): 1 / c}
        r = mul((num, extra), _reduce(invm))
        return r
    c, cm, q = _primitive(n)
    fs = _factors(q)
    if fs is None:
        f = _polyfactor(q)
        base = ({tuple((a, -e) for a, e in cm): 1 / c}, ((f, 1),))
    else:
        base = ({tuple((a, -e) for a, e in cm): 1 / c}, ())
        k, fs = fs
        base = scale(base, k)
        for f in fs:
            base = mul(base, inv((f, ())))
    return mul((num, extra), base)


_fac_memo = {}
tm._clear_hooks.append(_fac_memo.clear)


def _factors(q):
    """q * k = product of factors in disjoint atoms, or None (exponents of
    q are 0 and 1)."""
    k = frozenset(q.items())
    if k not in _fac_memo:
        _fac_memo[k] = _factors1(q)
    return _fac_memo[k]


def _factors1(q):
    if not 2 <= len(q) <= 40 or any(e != 1 for m in q for _, e in m):
        return None
    atoms = sorted({a for m in q for a, _ in m})
    if not 2 <= len(atoms) <= 8:
        return None

    def diff(p, a):
        return {tuple(t for t in m if t[0] != a): v for m, v in p.items()
                if (a, 1) in m}
    d1 = {a: diff(q, a) for a in atoms}
    comp = {a: {a} for a in atoms}
    for i, a in enumerate(atoms):
        for b in atoms[:i]:
            if comp[a] is comp[b]:
                continue
            if _pmul_raw(q, diff(d1[a], b)) != _pmul_raw(d1[a], d1[b]):
                u = comp[a] | comp[b]
                for t in u:
                    comp[t] = u
    comps = {id(u): u for u in comp.values()}.values()
    if len(comps) < 2:
        return None
    fs = []
    for u in sorted(comps, key=min):
        f = {}
        for m, v in q.items():
            r = tuple(t for t in m if t[0] in u)
            f[r] = f.get(r, 0) + v
        f = {m: v for m, v in f.items() if v}
        if not f:
            return None
        c = _lead(f)
        fs.append({m: v / c for m, v in f.items()})
    p = {(): Fraction(1)}
    for f in fs:
        p = _pmul_raw(p, f)
    c = _lead(p)
    return (c, fs) if {m: v / c for m, v in p.items()} == q else None


def ipow(x, n):
    if n < 0:
        return ipow(inv(x), -n)
    r = ({(): Fraction(1)}, ())
    for _ in range(n):
        r = mul(r, x)
    return r


def cst(v):
    v = Fraction(v)
    return ({(): v}, ()) if v else ({}, ())


def sub(x, y):
    return add(x, scale(y, -1))


def key(x):
    return (frozenset(x[0].items()), x[1])


def _factorint(n):
    out = {}
    d = 2
    while d * d <= n and d < 1000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _log_const(c):
    """log of a positive rational as a combination of log(prime) atoms."""
    r = ({}, ())
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n.bit_length() > 64:
            a = _atom(('log', Fraction(n)), ('log', cst(n)), True)
            r = add(r, ({((a, 1),): Fraction(s)}, ()))
            continue
        for p, e in _factorint(n).items():
            a = _atom(('log', p), ('log', cst(p)), True)
            r = add(r, ({((a, 1),): Fraction(s * e)}, ()))
    return r


def _log(x):
    n, d = x
    res = ({}, ())
    for f, e in d:
        if not _pos[f]:
            # cannot split: keep as one atom
            return _log_atom(x)
    if not n:
        return _log_atom(x)
    c, cm, q = _primitive(n)
    if all(_pos[a] for a, _ in cm) and (c > 0):
        pass
    elif c > 0 or len(q) == 1:
        # odd, non-positive atoms: keep these in one log
        if len(q) == 1 and not all(_pos[a] for a, _ in cm):
            return _log_atom(x)
        keep = tuple((a, e) for a, e in cm if not _pos[a])
        cm = tuple((a, e) for a, e in cm if _pos[a])
        q = {_mmul(m, keep): v for m, v in q.items()}
    else:
        return _log_atom(x)
    if c < 0:
        return _log_atom(x)
    res = _log_const(c)
    for a, e in cm:
        res = add(res, scale(_log_of_atom(a), e))
    if not (len(q) == 1 and () in q):
        # q: polynomial
        a = _atom(('logp', frozenset(q.items())), ('log', (q, ())), False)
        res = add(res, ({((a, 1),): Fraction(1)}, ()))
    for f, e in d:
        q = _info[f][1]
        a = _atom(('logp', frozenset(q.items())), ('log', (q, ())), False)
        res = add(res, ({((a, 1),): Fraction(-e)}, ()))
    return res


def _log_of_atom(a):
    kind, data = _info[a][:2]
    if kind == 'exp':
        return data
    if kind == 'sqrt':
        return scale(_log(data), Fraction(1, 2))
    b = _atom(('loga', a), ('log', ({((a, 1),): Fraction(1)}, ())), False)
    return ({((b, 1),): Fraction(1)}, ())


def _log_atom(x):
    a = _atom(('logx', key(x)), ('log', x), False)
    return ({((a, 1),): Fraction(1)}, ())


def _exp(x):
    n, d = x
    if not n:
        return cst(1)
    if d:
        # one atom, canonical sign
        s = 1 if _lead(n) > 0 else -1
        y = scale(x, s)
        a = _atom(('exp', key(y)), ('exp', y), True)
        return ({((a, s),): Fraction(1)}, ())
    res = cst(1)
    for m, c in n.items():
        if len(m) == 1 and m[0][1] == 1 and _info[m[0][0]][0] == 'log' \
                and c.denominator == 1:
            # exp(k*log(u)) = u^k   (log's domain: u > 0)
            res = mul(res, ipow(_info[m[0][0]][1], int(c)))
            continue
        if len(m) == 1 and m[0][1] == 1 and _info[m[0][0]][0] == 'log' \
                and c.denominator == 2:
            arg = _info[m[0][0]][1]
            s = _sqrt(arg)
            res = mul(res, ipow(s, int(c.numerator)))
            continue
        base = ({m: Fraction(1, c.denominator)}, ())
        a = _atom(('exp', key(base)), ('exp', base), True)
        res = mul(res, ({((a, int(c.numerator)),): Fraction(1)}, ()))
    return res


def _sqrt(x):
    n, d = x
    if not n:
        return x
    # pull out even powers of positive atoms / rational squares
    c, cm, q = _primitive(n)
    if c < 0:
        return _sqrt_atom(x)
    out = cst(1)
    inside = ({tuple(sorted(q2 for q2 in m)): v for m, v in q.items()}, d)
    cn, cd = c.numerator, c.denominator
    sq, rest = 1, Fraction(1)
    for nn, s in ((cn, 1), (cd, -1)):
        if nn.bit_length() > 64:
            rest *= Fraction(nn) ** s
            continue
        for p, e in _factorint(nn).items():
            if e // 2:
                out = scale(out, Fraction(p) ** (s * (e // 2)))
            if e % 2:
                if s == 1:
                    rest *= p
                else:
                    rest *= p            # 1/p = p/p^2
                    out = scale(out, Fraction(1, p))
    keep = []
    for a, e in cm:
        if _pos[a]:
            k, r = divmod(e, 2)
            if k:
                out = mul(out, ({((a, k),): Fraction(1)}, ()))
            if r:
                keep.append((a, r))
        else:
            keep.append((a, e))
    inside = mul(inside, ({tuple(sorted(keep)): rest}, ()))
    if inside == cst(1):
        return out
    # split positive monomial roots, so sqrt(a*b) = sqrt(a)*sqrt(b)
    if len(inside[0]) == 1 and not inside[1]:
        (m, c), = inside[0].items()
        if all(_pos[a] for a, _ in m):
            for a, e in m:
                out = mul(out, ipow(_sqrt_atom(
                    ({((a, 1),): Fraction(1)}, ())), e))
            for p, e in _factorint(int(c)).items() if (
                    c.denominator == 1) else [(c, 1)]:
                out = mul(out, ipow(_sqrt_atom(cst(p)), e))
            return out
    return mul(out, _sqrt_atom(inside))


_roots = []          # polynomials that were the argument of a root
tm._clear_hooks.append(_roots.clear)


def _mono_key(atoms):
    def f(m):
        d = dict(m)
        return sum(d.values()), tuple(d.get(a, 0) for a in atoms)
    return f


def _isqrt_frac(c):
    if c <= 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)


def _poly_root(q):
    """r > 0 with r * r = q (exactly), or None."""
    if len(q) < 3 or len(q) > 200:
        return None
    order = _mono_key(sorted({a for m in q for a, _ in m}))
    lead = max(q, key=order)
    c = _isqrt_frac(q[lead])
    if c is None or any(e % 2 for _, e in lead):
        return None
    l0 = tuple((a, e // 2) for a, e in lead)
    inv0 = tuple((a, -e) for a, e in l0)
    r = {l0: c}
    rem = _padd(q, {lead: q[lead]}, -1)
    for _ in range(40):
        if not rem:
            break
        m = max(rem, key=order)
        t = {_mmul(m, inv0): rem[m] / (2 * c)}
        step = _padd({k: 2 * v for k, v in _pmul_raw(r, t).items()},
                     _pmul_raw(t, t))
        rem = _padd(rem, step, -1)
        r = _padd(r, t)
        if len(rem) > 2 * len(q):
            return None
    if rem:
        return None
    if _is_pos((r, ())):
        return r, ()
    r = scale((r, ()), -1)
    return r if _is_pos(r) else None


def _sqrt_atom(x):
    if x == cst(1):
        return x
    if len(x[0]) > 2 and not x[1]:
        c, cm, q = _primitive(x[0])
        r = _poly_root(q)
        if r is None:
            for p in _roots[:30]:
                if 1 < len(p) < len(q):
                    s = _exact_div(q, p)
                    s = s and _poly_root(s)
                    if s:
                        r = mul(s, _sqrt_atom((p, ())))
                        break
        if r is not None:
            return r if c == 1 and not cm else mul(r, _sqrt(({cm: c}, ())))
        if len(q) < 50 and q not in _roots:
            _roots.append(q)
    elif len(x[0]) == 2 and not x[1] and x[0] not in _roots:
        _roots.append(x[0])
    if x[1] and len(x[1]) and all(_pos[f] for f, _ in x[1]):
        # sqrt(p/f) = sqrt(p*f^(e mod 2)) / f^ceil(e/2)
        num = (x[0], ())
        den = ()
        for f, e in x[1]:
            if e % 2:
                num = mul(num, (_info[f][1], ()))
            den = _dmul(den, ((f, (e + 1) // 2),))
        r = _sqrt(num)
        return _norm(r[0], _dmul(r[1], den))
    a = _atom(('sqrt', key(x)), ('sqrt', x), True)
    return ({((a, 1),): Fraction(1)}, ())


def nf(t):
    r = _nf_memo.get(t.id)
    if r is not None:
        return r
    # iterative post-order to avoid deep recursion
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in _nf_memo:
            stack.pop()
            continue
        args = x.args if x.op in _ARITH or x.op in tm.UFS else ()
        if x.op == 'ite':
            args = x.args[1:]
        pend = [a for a in args if a.id not in _nf_memo]
        if pend:
            stack.extend(pend)
            continue
        _nf_memo[x.id] = _nf1(x)
        stack.pop()
    return _nf_memo[t.id]


_ARITH = {'add', 'mul', 'div', 'toreal'}


def _single(key_, info, pos=False):
    a = _atom(key_, info, pos)
    return ({((a, 1),): Fraction(1)}, ())


def _is_int_atom(a):
    kind, data = _info[a][:2]
    if kind == 'floor':
        return True
    if kind in ('var', 'opaque') and data is not None:
        return getattr(data, 'sort', None) == 'I' or \
            getattr(data, 'op', None) == 'floor'
    return False


def _sin_cos(op, arg):
    # canonical sign
    if arg[0] and _lead(arg[0]) < 0:
        arg = scale(arg, -1)
        s = -1 if op == 'sin' else 1
    else:
        s = 1
    if not arg[0]:
        return cst(0 if op == 'sin' else 1)
    pi_a = _atom(('pi',), ('pi', None), True)
    # multiples of pi/2
    if not arg[1] and len(arg[0]) == 1 and ((pi_a, 1),) in arg[0]:
        c = arg[0][((pi_a, 1),)]
        if (2 * c).denominator == 1:
            k = int(2 * c) % 4
            v = (0, 1, 0, -1)[k] if op == 'sin' else (1, 0, -1, 0)[k]
            return cst(s * v)
    # shift by multiples of pi/2 (keep remainder polynomial)
    if not arg[1] and ((pi_a, 1),) in arg[0] and len(arg[0]) > 1:
        c = arg[0][((pi_a, 1),)]
        if (2 * c).denominator == 1:
            k = int(2 * c) % 4
            rest = dict(arg[0])
            del rest[((pi_a, 1),)]
            rest = (rest, ())
            if op == 'sin':
                r = {0: lambda: _sin_cos('sin', rest),
                     1: lambda: _sin_cos('cos', rest),
                     2: lambda: scale(_sin_cos('sin', rest), -1),
                     3: lambda: scale(_sin_cos('cos', rest), -1)}[k]()
            else:
                r = {0: lambda: _sin_cos('cos', rest),
                     1: lambda: scale(_sin_cos('sin', rest), -1),
                     2: lambda: scale(_sin_cos('cos', rest), -1),
                     3: lambda: _sin_cos('sin', rest)}[k]()
            return scale(r, s)
    # whole turns: 2*pi*k with integer k
    if not arg[1] and len(arg[0]) > 1:
        for m, c in list(arg[0].items()):
            if len(m) == 2 and (pi_a, 1) in m and (c / 2).denominator == 1:
                o = m[0] if m[1] == (pi_a, 1) else m[1]
                if o[1] == 1 and _is_int_atom(o[0]):
                    rest = dict(arg[0])
                    del rest[m]
                    return scale(_sin_cos(op, (rest, ())), s)
    # addition theorem
    if not arg[1] and 1 < len(arg[0]) <= 3:
        m, c = sorted(arg[0].items(), key=repr)[0]
        rest = dict(arg[0])
        del rest[m]
        p, q = ({m: c}, ()), (rest, ())
        if op == 'sin':
            r = add(mul(_sin_cos('sin', p), _sin_cos('cos', q)),
                    mul(_sin_cos('cos', p), _sin_cos('sin', q)))
        else:
            r = sub(mul(_sin_cos('cos', p), _sin_cos('cos', q)),
                    mul(_sin_cos('sin', p), _sin_cos('sin', q)))
        return scale(r, s)
    if not arg[1] and len(arg[0]) == 1:
        (m, c), = arg[0].items()
        if c == 2 and len(m) == 1 and m[0][1] == 1 and _info[m[0][0]][0] in (
                'arctan2', 'arctan', 'arccos', 'arcsin'):
            h = ({m: Fraction(1)}, ())
            p, q = _sin_cos('sin', h), _sin_cos('cos', h)
            return scale(scale(mul(p, q), 2) if op == 'sin' else
                         sub(mul(q, q), mul(p, p)), s)
    # sin(arccos u), cos(arccos u) ... when arg is a single atom
    if not arg[1] and len(arg[0]) == 1:
        (m, c), = arg[0].items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            k, data = _info[m[0][0]][:2]
            if k == 'arctan2' or k == 'arctan':
                y, x = data if k == 'arctan2' else (data, cst(1))
                r = inv(_sqrt(add(mul(x, x), mul(y, y))))
                return scale(mul(y if op == 'sin' else x, r), s)
            if k in ('arccos', 'arcsin'):
                if (k == 'arccos') == (op == 'cos'):
                    return scale(data, s)
                return scale(_sqrt(sub(cst(1), mul(data, data))), s)
    kk = key(arg)
    ca = _atom(('cos', kk), ('cos', arg), False)
    if op == 'cos':
        return ({((ca, 1),): Fraction(1)}, ())
    sa = _atom(('sin', kk), ('sin', ca), False)
    return ({((sa, 1),): Fraction(s)}, ())


def _nf1(x):
    op = x.op
    A = [_nf_memo[a.id] for a in x.args] if (
        op in _ARITH or op in tm.UFS) else None
    if op == 'const':
        if isinstance(x.val, float):
            return _single(('inf', x.val), ('inf', x.val))
        return cst(x.val)
    if op == 'var':
        return _single(('var', x.val, x.sort), ('var', x),
                       x.val in POSITIVE_VARS)
    if op == 'pi':
        return _single(('pi',), ('pi', None), True)
    if op == 'add':
        return add(A[0], A[1])
    if op == 'mul':
        return mul(A[0], A[1])
    if op == 'toreal':
        return A[0]
    if op == 'div':
        try:
            return mul(A[0], inv(A[1]))
        except ZeroDivisionError:
            return _single(('div0', x.id), ('opaque', x))
    if op == 'log':
        return _log(A[0])
    if op == 'exp':
        return _exp(A[0])
    if op == 'sqrt':
        return _sqrt(A[0])
    if op in ('sin', 'cos'):
        return _sin_cos(op, A[0])
    if op in ('erf', 'tanh', 'arcsin', 'arctan', 'erfinv'):
        n = A[0][0]
        if not n:
            return cst(0)
        s = 1 if _lead(n) > 0 else -1
        y = scale(A[0], s)
        return scale(_single((op, key(y)), (op, y)), s)
    if op in tm.UFS:
        kk = (op,) + tuple(key(a) for a in A)
        return _single(kk, (op, A[0] if len(A) == 1 else tuple(A)))
    if op == 'ite':
        c = bkey(x.args[0])
        a, b = _nf_memo[x.args[1].id], _nf_memo[x.args[2].id]
        if c[0] == 'not':
            c, a, b = c[1], b, a
        if key(a) == key(b):
            return a
        if c[0] == 'bc':
            return a if c[1] else b
        if c[0] == 'lt' and not c[1][1]:
            # both branches agree where the condition is an equality
            p = dict(c[1][0])
            if _lead(p) < 0:
                y = sub(a, b)
                m = next(iter(p))
                v = y[0].get(m, 0) / p[m]
                if v and not _padd(y[0], p, -v):
                    c = ('lt', key(scale((p, ()), -1)))
                    a, b = b, a
        la, lb = _lower(a, c, True), _lower(b, c, False)
        ua, ub = _lower(scale(a, -1), c, True), _lower(scale(b, -1), c, False)
        up = max(-ua[0], -ub[0]) if ua and ub else None
        if la is None or lb is None:
            r = _single(('ite', c, key(a), key(b)), ('ite', x, a, b, c))
            if up is not None:
                _ub[_the_atom(r)] = up
            return r
        # write it as bound + (positive) remainder
        lo = min(la[0], lb[0])
        pos = all(s for v, s in (la, lb) if v == lo)
        lo_ = cst(lo)
        a, b = sub(a, lo_), sub(b, lo_)
        r = _single(('ite', c, key(a), key(b)), ('ite', x, a, b, c), pos)
        if not pos:
            _nn.add(_the_atom(r))
        if up is not None:
            _ub[_the_atom(r)] = up - lo
        return add(lo_, r)
    if op in ('idiv', 'imod'):
        return _single((op, key(nf(x.args[0])), key(nf(x.args[1]))),
                       (op, x))
    if op == 'floor':
        return _single((op, key(nf(x.args[0]))), (op, x))
    raise tm.Unsupported('nf of ' + op)


def _lower(x, c, val):
    """A lower bound (value, strict) of x where condition c has value val."""
    if x[1]:
        return _lower_quot(x, c, val)
    best = _lower_poly(x[0])
    r = _lower_by(x, c, val)
    if r is not None and (best is None or r > best):
        best = r
    if len(x[0]) in (1, 2) and c[0] == 'lt':
        # const + coeff * (if-then-else): bound both branches
        d = dict(x[0])
        k = d.pop((), 0)
        if len(d) == 1:
            (m, v), = d.items()
            if v > 0 and len(m) == 1 and m[0][1] == 1 and \
                    _info[m[0][0]][0] == 'ite':
                bs = [_lower_quot(q, c, val) if q[1] else
                      _lower_by(q, c, val) or _lower_poly(q[0])
                      for q in _branches(m[0][0])]
                if len(bs) == 2 and None not in bs:
                    lo = min(b[0] for b in bs)
                    r = (k + v * lo, all(b[1] for b in bs if b[0] == lo))
                    if best is None or r > best:
                        best = r
    return best


def _lower_quot(x, c, val):
    if not all(_pos[f] for f, _ in x[1]):
        return None
    r = _lower_poly(x[0])
    best = (Fraction(0), r[1] or r[0] > 0) if r and r[0] >= 0 else None
    if c[0] != 'lt' or c[1][1]:
        return best
    p = dict(c[1][0])
    if val:
        p = {m: -v for m, v in p.items()}       # p > 0, else p >= 0
    den = {(): Fraction(1)}
    for f, e in x[1]:
        for _ in range(e):
            den = _pmul_raw(den, _info[f][1])
    ks = {v / p[m] for m, v in x[0].items() if m in p and v / p[m] > 0}
    for k in list(ks)[:4]:
        y = _padd(x[0], p, -k)
        if not y:
            b = (Fraction(0), val)
        else:
            m = next(iter(y))
            v = y[m] / den[m] if m in den else None
            if v is not None and not _padd(y, den, -v):
                b = (v, val)
            else:
                r = _lower_poly(y)
                if not r or r[0] < 0:
                    continue
                b = (Fraction(0), val or r[1] or r[0] > 0)
        if best is None or b > best:
            best = b
    return best


def _branches(a):
    return _info[a][2:4]


def _lower_by(x, c, val):
    """The bound of polynomial x that follows from the condition itself."""
    if c[0] != 'lt' or c[1][1]:
        return None
    best = None
    p = dict(c[1][0])
    if val:
        p = {m: -v for m, v in p.items()}       # p > 0, else p >= 0
    for m, v in x[0].items():
        if m and m in p and v / p[m] > 0:
            r = _lower_poly(_padd(x[0], p, -v / p[m]))
            if r is not None:
                r = (r[0], r[1] or val)
                if best is None or r > best:
                    best = r
    return best


def _the_atom(r):
    (m, _), = r[0].items()
    return m[0][0]


def _weaken(p):
    """A smaller polynomial: bounded atoms with a negative coefficient are
    replaced by their upper bound."""
    if not _ub or all(v > 0 for m, v in p.items() if m):
        return p
    r = {}
    for m, v in p.items():
        if v < 0:
            for a, e in m:
                if e == 1 and a in _ub:
                    rest = tuple(t for t in m if t[0] != a)
                    if _mono_nonneg(rest):
                        v, m = v * _ub[a], rest
                        break
        w = r.get(m, 0) + v
        if w:
            r[m] = w
        else:
            r.pop(m, None)
    return r


def _lower_poly(p):
    p = _weaken(p)
    lo, strict = Fraction(0), False
    for m, v in p.items():
        if not m:
            lo += v
        elif v < 0 or not _mono_nonneg(m):
            return None
        elif not strict and all(_strict(a) for a, _ in m):
            strict = True
    return lo, strict


def _strict(a):
    """The atom is known to be > 0 (a root may be 0)."""
    return _pos[a] and (_info[a][0] != 'sqrt' or _is_pos(_info[a][1]))


def _poly_pos(p):
    p = _weaken(p)
    return all(v > 0 for v in p.values()) and all(
        _mono_nonneg(m) for m in p) and any(_mono_pos(m) for m in p)


def _is_pos(x):
    return _poly_pos(x[0]) and all(_pos[f] for f, _ in x[1])


def bkey(b):
    r = _bk_memo.get(b.id)
    if r is None:
        r = _bkey(b)
        _bk_memo[b.id] = r
    return r


def _bkey(b):
    op = b.op
    if op == 'const':
        return ('bc', b.val)
    if op == 'var':
        return ('bv', b.val)
    if op in ('lt', 'le', 'eq'):
        x, y = b.args
        if op == 'le':                  # x <= y  ==  not (y < x)
            return _notk(_ltkey(y, x))
        if op == 'lt':
            return _ltkey(x, y)
        d = sub(nf(x), nf(y))
        if not d[0]:
            return ('bc', True)
        d = scale(d, 1 / _lead(d[0]))
        return ('eq', key(d))
    if op == 'not':
        return _notk(bkey(b.args[0]))
    ks = tuple(sorted((bkey(a) for a in b.args), key=_ksort))
    return (op,) + ks


def _notk(k):
    if k[0] == 'not':
        return k[1]
    if k[0] == 'bc':
        return ('bc', not k[1])
    return ('not', k)


def _ksort(k):
    return hash(k)


def _ltkey(x, y):
    return _lt0(sub(nf(x), nf(y)))


def _lt0(d):                    # d < 0
    if not d[0]:
        return ('bc', False)
    if d[1] and all(_pos[f] for f, _ in d[1]):
        d = (d[0], ())
    if not d[1] and (_ub or _nn):
        lo = _lower_poly(d[0])
        if lo is not None and lo[0] >= 0:
            return ('bc', False)
        lo = _lower_poly({m: -v for m, v in d[0].items()})
        if lo is not None and (lo[0] > 0 or (lo[0] == 0 and lo[1])):
            return ('bc', True)
    if not d[1]:
        r = _lt_ite(d[0])
        if r is not None:
            return r
    d = scale(d, 1 / abs(_lead(d[0])))
    return ('lt', key(d))


def _lt_ite(p):
    """v * ite(c, a, b) + k < 0 where one branch is decided and the other
    implies its own condition."""
    q = dict(p)
    k = q.pop((), 0)
    if len(q) != 1:
        return None
    (m, v), = q.items()
    if len(m) != 1 or m[0][1] != 1 or _info[m[0][0]][0] != 'ite' or len(
            _info[m[0][0]]) < 5:
        return None
    _, _, a, b, c = _info[m[0][0]]
    a, b = (add(scale(y, v), cst(k)) for y in (a, b))
    ka, kb = _lt0(a), _lt0(b)
    if ka[0] == 'bc':
        ka, kb, a, b, c = kb, ka, b, a, _notk(c)
    if kb[0] != 'bc' or ka[0] == 'bc':
        return None
    # kb False: lt <=> c and ka;  kb True: not lt <=> c and not ka
    return ka if _implies(_notk(ka) if kb[1] else ka, c) else None


def _implies(k, c):
    """k implies c (both signed comparisons)."""
    if k == c:
        return True
    neg = k[0] == 'not'
    k = k[1] if neg else k
    cn = c[0] == 'not'
    c = c[1] if cn else c
    if k[0] != 'lt' or c[0] != 'lt' or c[1][1] or k[1][1]:
        return False
    q = (dict(c[1][0]), ())          # need q < 0, or q >= 0 when negated
    if not cn:
        q = scale(q, -1)
    lo = _lower(q, k, not neg)
    return lo is not None and (lo[0] >= 0 if cn else
                               lo[0] > 0 or (lo[0] == 0 and lo[1]))


def is_zero(t):
    try:
        return not nf(t)[0]
    except TooBig:
        return False


def equal(a, b):
    try:
        d = sub(nf(a), nf(b))
    except TooBig:
        return False
    return not d[0]


def akey(t):
    """Canonical key of a term (falls back to identity if too big)."""
    try:
        return key(nf(t))
    except TooBig:
        return ('id', t.id)
