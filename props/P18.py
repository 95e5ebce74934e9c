"""spherical_opt: what the optimizer returns is the best point it has seen."""
import numpy as np
from symx.runner import Harness
from symx import terms as tm
from egenerator.utils import spherical_opt as so

M = 'egenerator.utils.spherical_opt.'
FIELDS = so.SPHER_T.names


def objective(env, calls, batch):
    """An arbitrary objective: a fresh unknown for every evaluation."""
    def one(x):
        v = env.real('f{}'.format(len(calls)), smp=(-3, 3))
        calls.append((np.array(np.asarray(x), copy=True), v))
        return v

    def many(x):
        return env.wrap([one(p) for p in x])
    return many if batch > 1 else one


class Rng(object):
    def __init__(self, env):
        self.env, self.n = env, 0

    def choice(self, n, size, replace=True):
        assert not replace, 'drawn without replacement'
        env, out = self.env, []
        left = list(range(n))
        for _ in range(int(np.prod(size))):
            self.n += 1
            k = env.choose('pick{}'.format(self.n), 0, len(left) - 1) \
                if len(left) > 1 else 0
            out.append(left.pop(int(k)))
        return np.array(out).reshape(size)

    def uniform(self, low, high, size):
        self.n += 1
        return self.env.array('w{}'.format(self.n), size, lo=low, hi=high,
                              smp=(0.1, 0.9))


def same(env, a, b):
    """The very same value (by construction, not only equal)."""
    if env.sym:
        return tm.lift(a).id == tm.lift(b).id
    return float(a) == float(b)


def std(env, v):
    m = sum(v) / len(v)
    return env.fn('sqrt', sum((x - m) * (x - m) for x in v) / len(v))


def opt(env, case):
    nd, npt, batch = case['nd'], case['np'], case.get('batch', 1)
    spher = case.get('spher', ())
    env.patch_np(so)
    # double (symbolic) instead of single precision fields
    env.patch(so, 'SPHER_T', np.dtype([(f, object if env.sym else float)
                                       for f in FIELDS]))
    x0 = env.array('x', (npt, nd), smp=(0.3, 2.5))
    keep = np.array(np.asarray(x0), copy=True)
    calls = []
    kw = dict(max_iter=case['it'], fstdthresh=case.get('fstd', 0),
              max_calls=case.get('max_calls'), rand=Rng(env),
              meta=case.get('meta', False))
    if 'noimp' in case:
        kw['max_noimprovement'] = case['noimp']
    if case.get('cstd'):
        kw['cstdthresh'] = [0.5] * (nd - 2 * len(spher))
    if case.get('srt') and env.sym:
        first = [env.real('f{}'.format(k), smp=(-3, 3)) for k in range(npt)]
        for k in range(npt - 1):
            env.assume(first[k] <= first[k + 1])
    r = so.spherical_opt(objective(env, calls, batch), case['method'], x0,
                         spherical_indices=spher, batch_size=batch, **kw)
    env.eq(x0, keep, 'the initial points are left alone')
    best = r['fun']

    def consistent(pt, v, label):
        ks = [k for k, (_, f) in enumerate(calls) if same(env, f, v)]
        env.check(len(ks) > 0, label + ': a value of the objective')
        if ks:
            near = [k for k in ks if env.sym or np.allclose(
                pt, calls[k][0], 1e-6, 1e-6)]
            env.eq(np.asarray(pt), calls[(near or ks)[0]][0],
                   label + ': the point of that value')
    consistent(r['x'], best, 'optimum')
    env.check(env.and_(*[best <= v for _, v in calls]),
              'no evaluation was better than the optimum')
    env.check(r['n_calls'] == len(calls), 'number of calls')
    pts, vals = r['final_simplex']
    for i in range(npt):
        consistent(pts[i], vals[i], 'final points')
    flag = r['stopping_flag']
    env.check(bool(r['success']) == (flag > 0), 'success flag')
    env.check(r['nit'] <= case['it'], 'iteration limit')
    if flag == -1:
        env.check(r['nit'] == case['it'], 'iterations used up')
    if flag == 0:
        env.check(len(calls) >= case['max_calls'], 'call limit')
    if flag == 1:
        env.lt(std(env, list(np.asarray(vals))), case['fstd'],
               'converged in the function values')
    if flag == 3:
        for d in range(nd):
            s = std(env, list(np.asarray(pts)[:, d]))
            env.lt(s, 0.5, 'converged in every coordinate')


def refused(env, case):
    f = lambda x: 0.                                        # noqa: E731
    x0 = np.zeros((4, 2))
    env.raises(ValueError, lambda: so.spherical_opt(f, 'nope', x0),
               'unknown method')
    env.raises(ValueError, lambda: so.spherical_opt(
        f, 'Nelder-Mead', x0, batch_size=2), 'batches need CRS2')
    env.raises(AssertionError, lambda: so.spherical_opt(
        f, 'Nelder-Mead', x0), 'size of the simplex')
    env.raises(AssertionError, lambda: so.spherical_opt(
        f, 'CRS2', np.zeros((2, 2))), 'number of points')
    env.raises(AssertionError, lambda: so.spherical_opt(
        f, 'CRS2', x0, batch_size=3), 'batch size')
    env.raises(AssertionError, lambda: so.spherical_opt(
        f, 'CRS2', x0, cstdthresh=[1.]), 'number of thresholds')
    env.check(True, 'reached')


def point(env, name):
    s = so.np.zeros((1,), dtype=so.SPHER_T)
    z, a = env.real(name + 'zen', smp=(0.2, 2.9)), env.real(
        name + 'az', smp=(0.1, 6.))
    s['zen'], s['az'] = z, a
    so.fill_from_spher(s)
    return s, z, a


def cart(s):
    return [s[k][0] for k in 'xyz']


def geometry(env, case):
    """Reflection on the sphere and angular distance."""
    env.patch_np(so)
    env.patch(so, 'SPHER_T', np.dtype([(f, object if env.sym else float)
                                       for f in FIELDS]))
    c, s = (lambda v: env.fn('cos', v)), (lambda v: env.fn('sin', v))
    o, z, a = point(env, 'o')
    m, z2, a2 = point(env, 'm')
    u = [s(z) * c(a), s(z) * s(a), c(z)]
    w = [s(z2) * c(a2), s(z2) * s(a2), c(z2)]
    env.eq(cart(o), u, 'direction of the angles')
    d = sum(p * q for p, q in zip(u, w))
    if case['what'] == 'reflect':
        got = []

        def fill(v):
            got.append(cart(v))
        env.patch(so, 'fill_from_cart', fill)
        n = so.np.zeros((1,), dtype=so.SPHER_T)
        so.reflect(o, m, n)
        if not got:
            return env.check(True, 'not decided: computed in another way')
        env.eq(got[0], [2 * d * q - p for p, q in zip(u, w)],
               'mirrored at the centre')
    elif case['what'] == 'dist':
        env.assume(d >= -1)
        env.assume(d <= 1)
        g = so.angular_dist(o, m)
        env.eq(c(np.asarray(g).reshape(-1)[0]), d, 'angular distance')


def fill_cart(env, case):
    env.patch_np(so)
    env.patch(so, 'SPHER_T', np.dtype([(f, object if env.sym else float)
                                       for f in FIELDS]))
    n = case['n']
    v = env.array('v', (n, 3), smp=(-2, 2))
    V = np.asarray(v)
    p = so.np.zeros((n + 1,), dtype=so.SPHER_T)
    for k, f in enumerate('xyz'):
        for i in range(n):
            p[f][i] = V[i, k]
    for i in range(n):
        env.assume(V[i, 0] * V[i, 0] + V[i, 1] * V[i, 1] > 0)
    so.fill_from_cart(p)
    for i in range(n):
        r = env.fn('sqrt', sum(V[i, k] * V[i, k] for k in range(3)))
        g = lambda f: p[f][i]                               # noqa: E731
        env.eq([g(f) * r for f in 'xyz'], list(V[i]), 'unit direction')
        env.eq(env.fn('cos', g('zen')), g('z'), 'zenith')
        X, Y = g('x'), g('y')
        rho = env.fn('sqrt', X * X + Y * Y)
        env.eq(env.fn('cos', g('az')) * rho, X, 'azimuth (x)')
        env.eq(env.fn('sin', g('az')) * rho, Y, 'azimuth (y)')
        env.le(0, g('az'), 'azimuth is not negative')
        env.le(g('az'), 2 * env.pi(), 'azimuth is at most 2 pi')
        env.eq([g('coszen'), g('cosaz') * rho, g('sinaz') * rho],
               [g('z'), X, Y], 'cached cosines and sines')
        env.le(0, g('sinzen'), 'cached sine is not negative')
        env.eq(g('sinzen') * g('sinzen'), 1 - g('z') * g('z'), 'cached sine of the zenith')
    env.eq([p[f][n] for f in ('x', 'y', 'z', 'zen', 'az')],
           [0, 0, 1, 0, 0], 'the null vector becomes the pole')


B = ('objective values arbitrary per call; 1 to 3 dimensions, 3 to 5 points, '
     'up to 3 iterations; listed batch sizes')
C = [dict(method='CRS2', nd=1, np=3, it=0),
     dict(method='CRS2', nd=1, np=3, it=1, srt=True),
     dict(method='CRS2', nd=1, np=3, it=0, batch=2, srt=True),
     dict(method='CRS2', nd=1, np=2, it=1, fstd=0.1),
     dict(method='CRS2', nd=1, np=3, it=3, max_calls=5),
     dict(method='CRS2', nd=1, np=2, it=1, cstd=True),
     dict(method='CRS2', nd=1, np=2, it=2, noimp=0),
     dict(method='CRS2', nd=2, np=3, it=0, meta=True),
     dict(method='Nelder-Mead', nd=1, np=2, it=1),
     dict(method='Nelder-Mead', nd=1, np=2, it=1, fstd=0.2, meta=True),
     dict(method='Nelder-Mead', nd=1, np=2, it=1, cstd=True),
     dict(method='Nelder-Mead', nd=2, np=3, it=0)]
TH = [dict(method='CRS2', nd=1, np=3, it=1),
      dict(method='CRS2', nd=1, np=3, it=2, srt=True),
      dict(method='CRS2', nd=1, np=3, it=1, batch=2, srt=True),
      dict(method='CRS2', nd=2, np=4, it=0, srt=True),
      dict(method='Nelder-Mead', nd=2, np=3, it=1),
      dict(method='Nelder-Mead', nd=1, np=2, it=2)]
HARNESSES = [
    Harness('opt', opt, C, [M + 'spherical_opt', M + 'find_replacements',
                            M + 'centroid'], B, thorough_cases=TH),
    Harness('geometry', geometry, [{'what': 'reflect'}, {'what': 'dist'}],
            [M + 'reflect', M + 'fill_from_spher', M + 'angular_dist'],
            'every pair of directions'),
    Harness('fill', fill_cart, [{'n': 1}, {'n': 2}], [M + 'fill_from_cart'],
            'every vector off the z axis and the null vector'),
    Harness('refused', refused, [{}], [M + 'spherical_opt'],
            'listed settings'),
]
ASSUMPTIONS = ['the random generator is a stub: arbitrary picks without '
               'replacement and arbitrary weights in [0,1]',
               'single precision fields are treated as reals']
