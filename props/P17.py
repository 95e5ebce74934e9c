"""Angles: opening angles and random offsets on the sphere."""
import numpy as np
import tensorflow as tf
from symx.runner import Harness
from symx import tfx
from egenerator.utils import angles

M = 'egenerator.utils.angles.'
ANG = tfx.Fn(lambda a, b: angles.get_angle(a, b), dtype='float64')
DEV = tfx.Fn(lambda *a: angles.get_angle_deviation(*a), dtype='float64')


def dot(a, b):
    return sum(p * q for p, q in zip(a, b))


def arr(x):
    return x.arr() if hasattr(x, 'arr') else np.asarray(x)


def vectors(env, case):
    """Angle between two vectors of any length."""
    n = case['n']
    a = env.array('a', (n, 3), smp=(-2, 2))
    b = env.array('b', (n, 3), smp=(-2, 2))
    A, Bv = np.asarray(a), np.asarray(b)
    for i in range(n):
        # neither vector vanishes; not exactly opposite (angle pi) as the
        # half angle formula divides 0 by 0 there over the reals
        env.assume(dot(A[i], A[i]) > 0.01)
        env.assume(dot(Bv[i], Bv[i]) > 0.01)
    th = arr(ANG(env, a, b)).reshape(-1)
    env.check(len(th) == n, 'one angle per pair')
    for i in range(n):
        nn = env.fn('sqrt', dot(A[i], A[i])) * env.fn('sqrt',
                                                      dot(Bv[i], Bv[i]))
        env.eq(env.fn('cos', th[i]) * nn, dot(A[i], Bv[i]),
               'cosine of the angle')
        env.check(th[i] >= 0, 'angle is not negative')
        env.le(th[i], env.pi(), 'angle is at most pi')


def deviation(env, case):
    n = case['n']
    p = [env.array(k, (n,), smp=(0.1, 3)) for k in ('az1', 'zen1', 'az2',
                                                    'zen2')]
    a1, z1, a2, z2 = [np.asarray(x) for x in p]
    ds = [dot(unit(env, z1[i], a1[i]), unit(env, z2[i], a2[i]))
          for i in range(n)]
    for d in ds:
        # true for every pair of unit vectors, given to the solver
        env.assume(d >= -1)
        env.assume(d <= 1)
    th = arr(DEV(env, *p)).reshape(-1)
    env.check(len(th) == n, 'one angle per pair')
    for i in range(n):
        env.eq(env.fn('cos', th[i]), ds[i],
               'cosine of the angle between the directions')
        env.check(th[i] >= 0, 'angle is not negative')
        env.le(th[i], env.pi(), 'angle is at most pi')


def unit(env, zen, az):
    c, s = (lambda v: env.fn('cos', v)), (lambda v: env.fn('sin', v))
    return [s(zen) * c(az), s(zen) * s(az), c(zen)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0]]


def delta_psi(env, case):
    nv, nd = case['nv'], case['nd']
    n = max(nv, nd)
    env.patch_np(angles)
    zen = env.array('zen', (nv,), smp=(0.2, 2.9))
    az = env.array('az', (nv,), smp=(0.1, 6))
    deg = case['deg']
    # every offset below 90 degrees is arctan of something
    tan = env.array('tan', (nd,), lo=0, smp=(0.1, 5))
    psi = env.wrap([env.fn('arctan', t) for t in np.asarray(tan)])
    if deg:
        psi = psi * 180 / env.pi()
    Z, A, Ts = np.asarray(zen), np.asarray(az), np.asarray(tan)
    t0 = env.array('t', (n if case['each'] else nv, 3), lo=-1, hi=1,
                   smp=(-0.9, 0.9))
    T0 = np.asarray(t0)
    vecs = [unit(env, Z[i], A[i]) for i in range(nv)]
    for i in range(n):
        k = cross(vecs[i % nv], T0[i % len(T0)])
        env.assume(dot(k, k) > 0.01)     # not parallel to the direction
    ok = []

    class Fixed(object):
        def uniform(self, low, high, size):
            ok.append((low, high) == (-1, 1) and
                      tuple(size) == T0.shape)
            return t0
    kw = dict(delta_psi=psi, random_service=Fixed(),
              randomize_for_each_delta_psi=case['each'], is_degree=deg)
    o = np.asarray(angles.get_delta_psi_vector(
        zen, az, return_angles=False, **kw))
    env.check(o.shape == (n, 3), 'one direction per offset')
    env.check(ok == [True], 'random direction is drawn from the cube')
    for i in range(n):
        t = Ts[i % nd]
        env.eq(dot(o[i], o[i]), 1, 'the new direction has unit length')
        d = dot(o[i], vecs[i % nv])
        # cos(psi) = 1 / sqrt(1 + tan(psi)^2) below 90 degrees
        env.eq(d * env.fn('sqrt', 1 + t * t), 1,
               'offset by the requested angle')


def to_angles(env, case):
    """Zenith and azimuth returned for the new direction."""
    env.patch_np(angles)
    v = env.array('v', (2, 3), lo=-1, hi=1, smp=(-0.9, 0.9))
    V, used = np.asarray(v), []
    for i in range(2):
        env.assume(V[i, 0] * V[i, 0] + V[i, 1] * V[i, 1] > 0)

    def stub(vec, **kw):
        used.append(vec)
        return v
    env.patch(angles, 'get_delta_psi_vector_dir', stub)
    zen, az = env.array('zen', (2,)), env.array('az', (2,))
    Z, A = np.asarray(zen), np.asarray(az)
    got = angles.get_delta_psi_vector(zen, az, env.wrap([1., 2.]))
    if not used:
        return env.check(True, 'not decided: computed in another way')
    u = np.asarray(used[0])
    env.check(u.shape == (2, 3), 'one direction per pair of angles')
    dz, da = np.asarray(got[0]), np.asarray(got[1])
    for i in range(2):
        env.eq(list(u[i]), unit(env, Z[i], A[i]), 'direction of the angles')
        env.eq(env.fn('cos', dz[i]), V[i, 2], 'zenith of the new direction')
        r = env.fn('sqrt', V[i, 0] * V[i, 0] + V[i, 1] * V[i, 1])
        env.eq(env.fn('cos', da[i]) * r, V[i, 0], 'azimuth (x)')
        env.eq(env.fn('sin', da[i]) * r, V[i, 1], 'azimuth (y)')
        env.le(0, dz[i], 'zenith is not negative')
        env.le(dz[i], env.pi(), 'zenith is at most pi')
        env.le(0, da[i], 'azimuth is not negative')
        env.le(da[i], 2 * env.pi(), 'azimuth is at most 2 pi')


def refused(env, case):
    env.patch_np(angles)
    d = env.real('psi', lo=90.0001, hi=180, smp=(91, 170))
    if not case['deg']:
        d = d / 180 * env.pi()
    # also if only one of several offsets is too large
    psi, k = [d], case.get('n', 1)
    if k > 1:
        s = env.array('small', (k,), lo=0, hi=89, smp=(1, 80))
        psi = list(np.asarray(s) if case['deg'] else
                   np.asarray(s) / 180 * env.pi())
        psi[env.choose('which', 0, k - 1)] = d
    env.raises(ValueError, lambda: angles.get_delta_psi_vector(
        0.3, 1.2, env.wrap(psi), is_degree=case['deg'],
        random_service=np.random.RandomState(1)),
        'offsets of 90 degrees and more are refused')


B = 'every real vector/angle; 1 to 2 directions'
DP = [dict(nv=v, nd=d, deg=g, each=e) for v, d, g, e in (
    (1, 1, True, True), (2, 2, False, True), (1, 2, True, True),
    (1, 2, True, False), (2, 1, False, True))]
HARNESSES = [
    Harness('vectors', vectors, [{'n': 1}, {'n': 2}], [M + 'get_angle'], B),
    Harness('deviation', deviation, [{'n': 1}, {'n': 2}],
            [M + 'get_angle_deviation'], B),
    Harness('delta_psi', delta_psi, DP, [
        M + 'get_delta_psi_vector', M + 'get_delta_psi_vector_dir'],
        B + '; offsets from 0 to below 90 degrees, the auxiliary random vector '
        'is arbitrary but not parallel to the direction'),
    Harness('to_angles', to_angles, [{}], [M + 'get_delta_psi_vector'], B),
    Harness('refused', refused, [
        {'deg': True}, {'deg': False}, {'deg': True, 'n': 2},
        {'deg': False, 'n': 3}], [
        M + 'get_delta_psi_vector_dir'], 'every offset above 90 degrees'),
]
ASSUMPTIONS = ['the random service returns an arbitrary vector of [-1,1]^3 '
               'not parallel to the direction']
