"""Path explorer, solver interface and the dual-mode harness environment.

A harness body ``body(env)`` is an ordinary python function that builds inputs
through ``env`` (``env.real``, ``env.int``, ...), runs the REAL code of
/repo on them and states obligations (``env.eq``, ``env.check`` ...).

* symbolic mode: inputs are solver variables, python branches on them fork the
  path (both sides are followed if the solver finds them feasible), and every
  obligation becomes a query ``path condition AND NOT obligation``.
* concrete mode: the same body is run on plain numbers with nothing patched;
  this replays counterexamples and validates the translation.
"""
import math
import random
import sys
import time
import traceback
from fractions import Fraction
import numpy as np
import z3

from . import terms as tm
from . import nf as nfm
from .terms import T, Unsupported, PathAbort


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.queries = 0
        self.obligations = 0
        self.branch_queries = 0
        self.solver_s = 0.0
        self.discharged = 0
        self.nf_equal = 0
        self.replays = 0
        self.samples = 0
        self.differential = 0
        self.unknown = []
        self.cross_checked = 0


# --------------------------------------------------------------------- to z3
class _Ax(list):
    """Collects axioms about ``v``: tagged with the applications they relate."""

    def __init__(self, side, v, uf):
        self.side, self.v, self.uf = side, v, uf
        self.peer = None

    def append(self, ax):
        hd = {self.v.decl().name()}
        if self.peer is not None:
            hd.add(self.peer.decl().name())
        self.side.append((frozenset(hd), ax))

    def __iadd__(self, axs):
        for ax in axs:
            self.append(ax)
        return self


class Z3Ctx(object):
    """Translate terms to z3, with one fresh variable per canonical UF app."""

    def __init__(self):
        self.memo = {}
        self.uf = {}            # key -> (z3var, op, arg terms)
        self.var_terms = {}
        self.side = []          # (head names, axiom) in creation order
        self.by_op = {}
        self.pi = None
        self.names = {}

    def expr(self, t):
        memo = self.memo
        if t.id in memo:
            return memo[t.id]
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            pend = [a for a in x.args if a.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            memo[x.id] = self._one(x)
            stack.pop()
        return memo[t.id]

    def _frac(self, v, sort):
        if isinstance(v, float):
            raise Unsupported('infinite constant reached the solver')
        if sort == 'I':
            return z3.IntVal(int(v))
        return z3.Q(v.numerator, v.denominator) if v.denominator != 1 \
            else z3.RealVal(v.numerator)

    def _one(self, x):
        op = x.op
        if op == 'const':
            if x.sort == 'B':
                return z3.BoolVal(x.val)
            if isinstance(x.val, float):
                # only legal below an ite guarding it; use a huge stand-in
                v = z3.Real('inf!' + ('p' if x.val > 0 else 'n'))
                self.side.append((frozenset([v.decl().name()]),
                                  v > z3.RealVal('1' + '0' * 40)
                                  if x.val > 0 else
                                  v < -z3.RealVal('1' + '0' * 40)))
                return v
            return self._frac(x.val, x.sort)
        if op == 'var':
            s = {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[x.sort]
            v = s('v!' + x.val)
            self.var_terms[x.val] = (x, v)
            return v
        if op == 'pi':
            if self.pi is None:
                self.pi = z3.Real('pi!')
                h = frozenset(['pi!'])
                self.side.append((h, self.pi > z3.Q(314159265358, 10**11)))
                self.side.append((h, self.pi < z3.Q(314159265359, 10**11)))
            return self.pi
        a = [self.memo[y.id] for y in x.args]
        if op == 'add':
            return a[0] + a[1]
        if op == 'mul':
            return a[0] * a[1]
        if op == 'div':
            return a[0] / a[1]
        if op == 'toreal':
            return z3.ToReal(a[0])
        if op == 'idiv':
            # python floor division (z3 div floors for positive divisors)
            return z3.If(a[1] > 0, a[0] / a[1], (-a[0]) / (-a[1]))
        if op == 'imod':
            return a[0] - a[1] * z3.If(a[1] > 0, a[0] / a[1],
                                       (-a[0]) / (-a[1]))
        if op == 'floor':
            return z3.ToInt(a[0])
        if op == 'lt':
            return a[0] < a[1]
        if op == 'le':
            return a[0] <= a[1]
        if op == 'eq':
            return a[0] == a[1]
        if op == 'not':
            return z3.Not(a[0])
        if op == 'and':
            return z3.And(a[0], a[1])
        if op == 'xor':
            return z3.Xor(a[0], a[1])
        if op == 'ite':
            return z3.If(a[0], a[1], a[2])
        if op in tm.UFS:
            return self._uf(x, a)
        raise Unsupported('z3 translation of ' + op)

    def _uf(self, x, a):
        op = x.op
        key = (op,) + tuple(nfm.akey(y) for y in x.args)
        if op == 'exp':
            # one variable for exp(u) and exp(-u)
            key = (op, nfm.akey(x.args[0]))
        if key in self.uf:
            return self.uf[key][0]
        v = z3.Real('{}!{}'.format(op, len(self.uf)))
        self.uf[key] = (v, op, x.args, a)
        s = _Ax(self.side, v, self.uf)
        u = a[0]
        peers = self.by_op.setdefault(op, [])
        if op == 'exp':
            s += [v > 0, v >= 1 + u, z3.Implies(u <= 0, v <= 1),
                  z3.Implies(u < 0, v < 1), z3.Implies(u > 0, v > 1 + u)]
            for (v2, u2) in peers[:10]:
                s.peer = v2
                s += [z3.Implies(u < u2, v < v2), z3.Implies(u2 < u, v2 < v),
                      z3.Implies(u == u2, v == v2)]
                if nfm.is_zero(tm.add(x.args[0], self._peer_t(op, v2))):
                    s.append(v * v2 == 1)
            for (v2, u2) in self.by_op.get('log', [])[:10]:
                s.peer = v2
                # exp(u) vs log(u2):  u < log u2 <=> exp u < u2
                s += [z3.Implies(u2 > 0, (u < v2) == (v < u2)),
                      z3.Implies(u2 > 0, (u == v2) == (v == u2))]
        elif op == 'log':
            s += [z3.Implies(u > 0, v <= u - 1), z3.Implies(u >= 1, v >= 0),
                  z3.Implies(z3.And(u > 0, u < 1), v < 0),
                  z3.Implies(u > 1, v > 0)]
            for (v2, u2) in peers[:10]:
                s.peer = v2
                s += [z3.Implies(z3.And(u > 0, u < u2), v < v2),
                      z3.Implies(z3.And(u2 > 0, u2 < u), v2 < v),
                      z3.Implies(u == u2, v == v2)]
            for (v2, u2) in self.by_op.get('exp', [])[:10]:
                s.peer = v2
                s += [z3.Implies(u > 0, (u2 < v) == (v2 < u)),
                      z3.Implies(u > 0, (u2 == v) == (v2 == u))]
        elif op == 'sqrt':
            s += [z3.Implies(u >= 0, z3.And(v >= 0, v * v == u)),
                  z3.Implies(u > 0, v > 0)]
            for (v2, u2) in peers[:10]:
                s.peer = v2
                s += [z3.Implies(z3.And(u >= 0, u < u2), v < v2),
                      z3.Implies(z3.And(u2 >= 0, u2 < u), v2 < v),
                      z3.Implies(u == u2, v == v2)]
        elif op in ('sin', 'cos'):
            other = 'cos' if op == 'sin' else 'sin'
            s += [v >= -1, v <= 1]
            okey = (other, nfm.akey(x.args[0]))
            if okey in self.uf:
                ov = self.uf[okey][0]
                s.peer = ov
                s.append(v * v + ov * ov == 1)
            for (v2, u2) in peers[:10]:
                s.peer = v2
                s.append(z3.Implies(u == u2, v == v2))
        elif op == 'arccos':
            s += [v >= 0, v <= self.expr(tm.PI)]
            for (v2, u2) in peers[:10]:
                s.peer = v2
                s += [z3.Implies(z3.And(u >= -1, u < u2), v > v2),
                      z3.Implies(z3.And(u2 >= -1, u2 < u), v2 > v),
                      z3.Implies(u == u2, v == v2)]
        elif op == 'arcsin':
            p = self.expr(tm.PI)
            s += [v >= -p / 2, v <= p / 2, (u > 0) == (v > 0),
                  (u == 0) == (v == 0)]
        elif op == 'arctan':
            p = self.expr(tm.PI)
            s += [v > -p / 2, v < p / 2, (u > 0) == (v > 0),
                  (u == 0) == (v == 0)]
        elif op == 'arctan2':
            p = self.expr(tm.PI)
            y, xx = a
            s += [v >= -p, v <= p, z3.Implies(y > 0, v > 0),
                  z3.Implies(y < 0, v < 0),
                  z3.Implies(z3.And(y == 0, xx > 0), v == 0),
                  z3.Implies(xx > 0, z3.And(v > -p / 2, v < p / 2)),
                  z3.Implies(xx >= 0, z3.And(v >= -p / 2, v <= p / 2))]
        elif op in ('erf', 'tanh'):
            s += [v > -1, v < 1, (u > 0) == (v > 0), (u == 0) == (v == 0)]
            for (v2, u2) in peers[:10]:
                s.peer = v2
                s += [(u < u2) == (v < v2), (u == u2) == (v == v2),
                      (u == -u2) == (v == -v2), (u < -u2) == (v < -v2)]
            for (v2, u2) in self.by_op.get('erfinv', [])[:10]:
                s.peer = v2
                if op == 'erf':
                    s += [z3.Implies(z3.And(u2 > -1, u2 < 1),
                                     z3.And((u < v2) == (v < u2),
                                            (u == v2) == (v == u2)))]
        elif op == 'erfinv':
            s += [(u > 0) == (v > 0), (u == 0) == (v == 0)]
            for (v2, u2) in peers[:10]:
                s.peer = v2
                s += [z3.Implies(z3.And(u > -1, u < u2, u2 < 1), v < v2),
                      z3.Implies(z3.And(u2 > -1, u2 < u, u < 1), v2 < v),
                      z3.Implies(u == u2, v == v2)]
            for (v2, u2) in self.by_op.get('erf', [])[:10]:
                s.peer = v2
                s += [z3.Implies(z3.And(u > -1, u < 1),
                                 z3.And((u2 < v) == (v2 < u),
                                        (u2 == v) == (v2 == u)))]
        else:
            for (v2, u2) in peers[:10]:
                s.peer = v2
                aa = self._peer_a(op, v2)
                s.append(z3.Implies(z3.And(*[p == q for p, q in
                                             zip(a, aa)]), v == v2))
        peers.append((v, u))
        return v

    def _peer_t(self, op, v2):
        for v, o, args, a in self.uf.values():
            if o == op and v is v2:
                return args[0]
        return tm.ONE

    def _peer_a(self, op, v2):
        for v, o, args, a in self.uf.values():
            if o == op and v is v2:
                return a
        return []


_VERBOSE = False


def _algval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        w = v.approx(30)
        return Fraction(w.numerator_as_long(), w.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


class Prover(object):
    """sat / unsat / unknown for a conjunction of boolean terms."""

    def __init__(self, stats, timeout_ms=20000):
        self.stats = stats
        self.timeout_ms = timeout_ms
        self.ctx = Z3Ctx()
        self.cross = False

    def reset(self):
        self.ctx = Z3Ctx()

    def _goal(self, conj):
        ctx = self.ctx
        es = [ctx.expr(c) for c in conj]
        n = 0
        side = []
        # an axiom is relevant once all of its head variables occur; its
        # arguments may bring in further applications
        used = set()
        for e in es:
            _consts(e, used)
        pending = list(ctx.side)
        changed = True
        while changed:
            changed = False
            rest = []
            for hd, ax in pending:
                if hd <= used:
                    side.append(ax)
                    n0 = len(used)
                    _consts(ax, used)
                    if len(used) != n0:
                        changed = True
                else:
                    rest.append((hd, ax))
            pending = rest
        # uf defining arguments may mention other ufs: close over them
        return es, side

    def check(self, conj, timeout_ms=None, want_model=True):
        """conj: list of terms.  Returns ('sat', model) | ('unsat', None) |
        ('unknown', None)."""
        t0 = time.time()
        conj = [c for c in conj if not (c.op == 'const' and c.val)]
        for c in conj:
            if c.op == 'const' and not c.val:
                conj = [tm.FALSE]
                break
        try:
            r = self._check(conj, timeout_ms or self.timeout_ms)
        finally:
            self.stats.solver_s += time.time() - t0
        return r

    def _check(self, conj, timeout):
        es, side = self._goal(conj)
        allz = es + side
        s = z3.Solver()
        s.set('timeout', int(min(timeout, 4000)))
        s.add(*allz)
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', self._model(s.model())
        # second attempt: pure nonlinear real arithmetic
        try:
            tac = z3.Then('simplify', 'propagate-values', 'solve-eqs',
                          'elim-term-ite', 'purify-arith', 'simplify',
                          'tseitin-cnf', 'qfnra-nlsat')
            s2 = tac.solver()
            s2.set('timeout', int(timeout))
            s2.add(*allz)
            r = s2.check()
            if r == z3.unsat:
                return 'unsat', None
            if r == z3.sat:
                return 'sat', self._model(s2.model())
        except z3.Z3Exception:
            pass
        # third attempt: without the axioms (only the path facts)
        r = _cvc5_check(allz, min(timeout, 15000))
        if r == 'unsat':
            return 'unsat', None
        s3 = z3.SolverFor('QF_NIRA')
        s3.set('timeout', int(timeout))
        s3.add(*allz)
        r = s3.check()
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', self._model(s3.model())
        return 'unknown', None

    def _model(self, m):
        out = {}
        for name, (t, v) in self.ctx.var_terms.items():
            val = _algval(m.eval(v, model_completion=True))
            if val is not None:
                out[name] = val
        return out


def _linear_unsat(conj):
    """The conjunction is unsatisfiable even if every monomial of the normal
    forms is an independent number (a cheap sufficient test)."""
    s = z3.Solver()
    s.set('timeout', 1000)
    mons, props = {}, {}

    def mono(m):
        if m not in mons:
            v = mons[m] = z3.Real('m%d' % len(mons))
            if nfm._mono_pos(m):
                s.add(v > 0)
            elif nfm._mono_nonneg(m):
                s.add(v >= 0)
        return mons[m]

    def poly(items):
        return z3.Sum([z3.RealVal(str(c)) * mono(m) if m else
                       z3.RealVal(str(c)) for m, c in items])

    def conv(k):
        if k[0] == 'bc':
            return z3.BoolVal(k[1])
        if k[0] == 'not':
            return z3.Not(conv(k[1]))
        if k[0] in ('and', 'or'):
            return (z3.And if k[0] == 'and' else z3.Or)(
                [conv(x) for x in k[1:]])
        if k[0] in ('lt', 'eq') and isinstance(k[1], tuple) and (
                not k[1][1] or k[0] == 'eq'):
            v = poly(k[1][0])
            return v < 0 if k[0] == 'lt' else v == 0
        if k not in props:
            props[k] = z3.Bool('p%d' % len(props))
        return props[k]
    try:
        s.add([conv(nfm.bkey(c)) for c in conj])
    except (nfm.TooBig, z3.Z3Exception):
        return False
    return s.check() == z3.unsat


def _cvc5_check(allz, timeout):
    try:
        import cvc5
        s = z3.Solver()
        s.add(*allz)
        txt = s.to_smt2()
        tmg = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tmg) if tmg is not None else cvc5.Solver()
        slv.setOption('tlimit-per', str(int(timeout)))
        slv.setLogic('QF_NIRA')
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = parser.getSymbolManager()
        res = 'unknown'
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            o = str(cmd.invoke(slv, sm)).strip()
            if '(error' in o:
                return 'unknown'
            if o in ('sat', 'unsat', 'unknown'):
                res = o
        return res
    except Exception:
        return 'unknown'


_consts_cache = {}


def _consts(e, out):
    k = e.get_id()
    c = _consts_cache.get(k)
    if c is not None and c[0].eq(e):
        out |= c[1]
        return
    res = set()
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            res.add(x.decl().name())
        stack.extend(x.children())
    _consts_cache[k] = (e, res)
    out |= res


# ------------------------------------------------------------------ explorer
class Violation(object):
    def __init__(self, case, label, values, detail):
        self.case, self.label = case, label
        self.values, self.detail = values, detail


class Skip(BaseException):
    """Concrete input outside the assumptions."""


class BadPath(BaseException):
    """Stop exploring this path after a counterexample."""


class Env(object):
    """Common interface of both modes."""
    sym = False

    def __init__(self):
        self._patches = []
        self.decl = {}
        self.notes = {}
        self.lazies = {}

    # patches -----------------------------------------------------------
    def patch(self, obj, name, value):
        """Replace an attribute / dict item for the duration of this run."""
        if isinstance(obj, dict):
            has = name in obj
            old = obj.get(name)
            obj[name] = value
        else:
            has = name in getattr(obj, '__dict__', {})
            old = getattr(obj, '__dict__', {}).get(name)
            setattr(obj, name, value)
        self._patches.append((obj, name, has, old))

    def unpatch(self):
        for obj, name, has, old in reversed(self._patches):
            if isinstance(obj, dict):
                if has:
                    obj[name] = old
                else:
                    obj.pop(name, None)
            elif has:
                setattr(obj, name, old)
            else:
                delattr(obj, name)
        self._patches = []

    def patch_np(self, *modules):
        """Route the modules' numpy through the symbolic front end."""
        from . import npx
        for m in modules:
            self.patch(m, 'np', npx.symnp if self.sym else npx.concnp)
            if self.sym and 'float' not in m.__dict__:
                self.patch(m, 'float', npx.Float)

    def reals(self, name, n, **kw):
        return [self.real('{}_{}'.format(name, i), **kw) for i in range(n)]

    def array(self, name, shape, **kw):
        from . import npx
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            a[idx] = self.real('{}_{}'.format(
                name, '_'.join(str(i) for i in idx)), **kw)
        if self.sym:
            return a.view(npx.SArr)
        return a.astype(float) if a.size else np.zeros(shape)

    def native(self, a):
        """A native array that can be indexed with symbolic masks."""
        from . import npx
        return npx.nat(a) if self.sym else a

    def lazy(self, name, shape, lo=-2., hi=2., pos=False):
        """Large array: symbolic elements come into being when read."""
        shape = tuple(shape)
        if self.sym:
            from . import tfx
            x = self

            def get(i):
                return x.real('{}@{}'.format(name, i), smp=(lo, hi),
                              pos=pos)
            return tfx.LA(shape, get)
        s = self.int('{}!seed'.format(name), 0, 10**6)
        a = np.random.RandomState(s).uniform(lo, hi, size=shape)
        f = a.reshape(-1)
        for k, v in self.values.items():
            if k.startswith(name + '@'):
                f[int(k.split('@')[1])] = float(v)
                self.used[k] = float(v)
                if pos and not v > 0:
                    raise Skip()
        self.lazies[name] = f
        return a

    def wrap(self, arr):
        """Object array in symbolic mode, float array in concrete mode."""
        from . import npx
        if self.sym:
            return npx.sarr(arr)
        return np.array(arr, dtype=float)

    def is_true(self, c):
        return bool(c)

    def pi(self):
        return tm.PI if self.sym else math.pi

    def le_(self, a, b):
        """a <= b as a condition (with rounding slack on plain numbers)."""
        if self.sym:
            return tm.le(tm.lift(a), tm.lift(b))
        return a <= b + self.atol + self.rtol * max(abs(a), abs(b))

    def eq_(self, a, b):
        if self.sym:
            return tm.eq(tm.lift(a), tm.lift(b))
        return abs(a - b) <= self.atol + self.rtol * max(abs(a), abs(b))

    def eq(self, a, b, label, rtol=None, atol=None):
        raise NotImplementedError

    def raises(self, exc, f, label):
        """Obligation: f() raises exc."""
        try:
            f()
        except exc:
            self.check(True, label)
            return
        self.check(False, label)

    def holds(self, label, f):
        """Obligation: f() does not raise an ordinary exception."""
        try:
            return f()
        except (Unsupported, NotImplementedError):
            raise
        except Exception as e:
            self.fail(label + ': ' + repr(e)[:200])

    def fail(self, label):
        self.check(False, label)


class SymKey(object):
    """A symbolic name: equality and order are decided by the solver (the
    path forks), so real dicts, sets and sorts run on it unchanged."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return 77003

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, SymKey):
            return bool(self.t == o.t)
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        return bool(self.t < o.t)

    def __le__(self, o):
        return bool(self.t <= o.t)

    def __gt__(self, o):
        return bool(self.t > o.t)

    def __ge__(self, o):
        return bool(self.t >= o.t)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'key'

    def __format__(self, spec):
        return 'key'


class SymEnv(Env):
    sym = True

    def key(self, name, n=1000):
        """A symbolic dictionary key / name (concretely a short string)."""
        return SymKey(self.int(name, 0, n))

    def keq(self, a, b):
        return tm.TRUE if a is b else tm.eq(a.t, b.t)

    def klt(self, a, b):
        return tm.lt(a.t, b.t)

    def __init__(self, explorer):
        Env.__init__(self)
        self.x = explorer

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False,
             smp=None):
        v = tm.var(name)
        self.decl[name] = ('R', lo, hi, pos, nonneg, smp)
        self.x.decl[name] = self.decl[name]
        if pos or (lo is not None and lo > 0):
            nfm.POSITIVE_VARS.add(name)
        cs = []
        if pos:
            cs.append(v > 0)
        if nonneg:
            cs.append(v >= 0)
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        for c in cs:
            self.x.assume(c)
        return v

    def int(self, name, lo, hi):
        v = tm.var(name, 'I')
        self.decl[name] = ('I', lo, hi, False, False, None)
        self.x.decl[name] = self.decl[name]
        self.x.assume(v >= lo)
        self.x.assume(v <= hi)
        return v

    def bool(self, name):
        self.decl[name] = ('B', None, None, False, False, None)
        self.x.decl[name] = self.decl[name]
        return tm.var(name, 'B')

    def choose(self, name, lo, hi):
        """A concrete integer lo..hi, forking over the feasible values."""
        if lo == hi:
            return lo
        return int(self.int(name, lo, hi))

    def ite(self, c, a, b):
        return tm.ite(tm.as_bool(tm.lift(c)), tm.lift(a), tm.lift(b))

    def and_(self, *cs):
        return tm.conj(cs)

    def or_(self, *cs):
        return tm.disj(cs)

    def not_(self, c):
        return tm.not_(tm.as_bool(tm.lift(c)))

    def implies(self, a, b):
        return tm.implies(tm.as_bool(tm.lift(a)), tm.as_bool(tm.lift(b)))

    def fn(self, name, *a):
        return tm.fn(name, *a)

    def assume(self, c):
        self.x.assume(tm.as_bool(tm.lift(c)))

    def check(self, c, label):
        self.x.oblige([tm.as_bool(tm.lift(c))], label)

    def eq(self, a, b, label, rtol=None, atol=None):
        pairs = _pairs(a, b)
        if pairs is None:
            self.x.oblige([tm.FALSE], label)
            return
        self.x.oblige_eq(pairs, label)

    def le(self, a, b, label, rtol=None, atol=None):
        pairs = _pairs(a, b)
        if pairs is None:
            self.x.oblige([tm.FALSE], label)
            return
        self.x.oblige([tm.le(p, q) for p, q in pairs], label)

    def lt(self, a, b, label):
        self.x.oblige([tm.lt(p, q) for p, q in _pairs(a, b)], label)

    def reach(self, label):
        self.x.reached.add(label)


def _flat(a):
    if isinstance(a, T):
        return [a], ()
    if isinstance(a, np.ndarray):
        if a.dtype == np.float32:
            return [tm.lift(np.float32(v)) for v in a.reshape(-1)], a.shape
        if a.dtype == object:
            return [tm.lift(v) for v in np.asarray(a).reshape(-1)], a.shape
        return [tm.lift(v) for v in a.reshape(-1).tolist()], a.shape
    if isinstance(a, (list, tuple)):
        fl = [_flat(v) for v in a]
        shp = {s for _, s in fl}
        if len(shp) > 1:
            return [x for f, _ in fl for x in f], ('ragged',) + tuple(
                s for _, s in fl)
        return [x for f, _ in fl for x in f], (len(a),) + (
            fl[0][1] if fl else ())
    if hasattr(a, 'numpy') and not isinstance(a, T):
        return _flat(a.numpy())
    return [tm.lift(a)], ()


def _pairs(a, b):
    fa, sa = _flat(a)
    fb, sb = _flat(b)
    if sa != sb:
        if sa == () and sb != ():
            fa = fa * len(fb)
        elif sb == ():
            fb = fb * len(fa)
        else:
            return None
    return list(zip(fa, fb))


class Explorer(object):

    def __init__(self, stats, timeout_ms=20000, max_paths=4000,
                 deadline=None):
        self.stats = stats
        self.prover = Prover(stats, timeout_ms)
        self.max_paths = max_paths
        self.deadline = deadline
        self.reached = set()
        self.decl = {}

    # ----------------------------------------------------------- branching
    def decide(self, b):
        k = nfm.bkey(b) if b.op != 'var' else ('bv', b.val)
        if k[0] == 'bc':
            return k[1]
        neg = False
        if k[0] == 'not':
            k, neg = k[1], True
        if k in self.known:
            return self.known[k] != neg
        i = len(self.trace)
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            ft = self.feasible(b)
            ff = self.feasible(tm.not_(b))
            if ft and ff:
                self.stack.append(self.trace + [False])
                val = True
            elif ft:
                val = True
            elif ff:
                val = False
            else:
                raise PathAbort()
        self.trace.append(val)
        self.known[k] = val != neg
        self.push(b if val else tm.not_(b))
        return val

    def concretize(self, t):
        """Fork over the feasible values of a symbolic integer."""
        d = self.decl.get(t.val) if t.op == 'var' else None
        if d and d[1] is not None and d[2] is not None:
            lo, hi = int(d[1]), int(d[2])
            while lo < hi:
                mid = (lo + hi) // 2
                if self.decide(tm.le(t, tm.const(mid))):
                    hi = mid
                else:
                    lo = mid + 1
            return lo
        for _ in range(64):
            st, m = self.prover.check(self.pc + [tm.eq(t, tm.var(
                'conc!', 'I'))], 5000)
            self.stats.branch_queries += 1
            if st != 'sat':
                raise Unsupported('cannot concretize integer')
            v = int(m['conc!'])
            if self.decide(tm.eq(t, tm.const(v))):
                return v
        raise Unsupported('too many values to concretize')

    def push(self, c):
        if c.op == 'and':
            for a in c.args:
                self.push(a)
            return
        if c.op == 'const' and c.val:
            return
        self.pc.append(c)
        self.inc_dirty = True

    def feasible(self, b, timeout=1500):
        if b.op == 'const':
            return b.val
        self.stats.branch_queries += 1
        t0 = time.time()
        try:
            ctx = self.prover.ctx
            z3.set_param('timeout', 0)
            s = z3.Solver()
            s.set('timeout', timeout)
            es, side = self.prover._goal(self.pc + [b])
            s.add(*es)
            s.add(*side)
            r = s.check()
        finally:
            self.stats.solver_s += time.time() - t0
        return r != z3.unsat

    def assume(self, c):
        if c.op == 'const':
            if not c.val:
                raise PathAbort()
            return
        self.push(c)
        # remember decided comparisons
        k = nfm.bkey(c)
        if k[0] == 'bc':
            if not k[1]:
                raise PathAbort()
            return
        if k[0] == 'not':
            self.known[k[1]] = False
        else:
            self.known[k] = True

    # --------------------------------------------------------- obligations
    def _on_result(self, label, st, model):
        self.stats.queries += 1
        if st == 'unsat':
            self.stats.discharged += 1
            return
        if st == 'unknown':
            self.unknowns.append((self.case, label, list(self.trace)))
            self.stats.unknown.append((self.case, label))
            # candidates may still be found by replay
            self.on_candidate(self, label, {}, 'unknown')
            return
        self.on_candidate(self, label, model, 'sat')

    def oblige(self, bs, label):
        self.reached.add(label)
        self.labels.add(label)
        self.stats.obligations += len(bs)
        bs = [b for a in bs for b in _conjuncts(a)]
        n = len(bs)
        bs = [b for b in bs if not _settled(b)]
        self.stats.nf_equal += n - len(bs)
        if not bs:
            st, m = self.prover.check([tm.FALSE])
            return self._on_result(label, st, m)
        if len(bs) == 1:
            st, m = self.prover.check(self.pc + [tm.not_(bs[0])])
            return self._on_result(label, st, m)
        # one query for the conjunction; split it if it is not decided
        todo = [b for b in bs if not (b.op == 'const' and b.val)]
        if len(todo) <= 80:
            st, m = self.prover.check(
                self.pc + [tm.not_(tm.conj(todo))],
                min(self.prover.timeout_ms, 6000))
            if st in ('unsat', 'sat'):
                return self._on_result(label, st, m)
        for b in todo:
            st, m = self.prover.check(self.pc + [tm.not_(b)])
            self._on_result(label, st, m)
            if st != 'unsat':
                return

    def oblige_eq(self, pairs, label):
        self.reached.add(label)
        self.labels.add(label)
        self.stats.obligations += len(pairs)
        rest = []
        for a, b in pairs:
            if self.diff_hook is not None:
                self.diff_hook(label, a, b)
            if a.sort == 'B' or b.sort == 'B':
                e = tm.eq(tm.as_bool(a), tm.as_bool(b))
                if not (e.op == 'const' and e.val):
                    rest.append((a, b, e))
                continue
            if tm.is_inf(a) or tm.is_inf(b):
                if a is not b:
                    e = tm.eq(a, b)
                    rest.append((a, b, e))
                continue
            if a is b or nfm.equal(a, b):
                self.stats.nf_equal += 1
                continue
            rest.append((a, b, None))
        if not rest:
            # everything simplified to 0 = 0: the query is trivially unsat
            st, m = self.prover.check(self.pc[:0] + [tm.FALSE])
            return self._on_result(label, st, m)
        for a, b, e in rest:
            st, m = self._prove_eq(a, b, e)
            self._on_result(label, st, m)
            if st != 'unsat':
                return

    def _prove_eq(self, a, b, e, depth=0, extra=()):
        pc = self.pc + list(extra)
        if e is not None:
            return self.prover.check(pc + [tm.not_(e)])
        if nfm.equal(a, b):
            return 'unsat', None
        c = _differing_ite(a, b)
        c = _find_ite(a) if c is None else c
        c = _find_ite(b) if c is None else c
        if depth == 0:
            self._slow = False
        if c is None or depth > 24:
            ne = tm.not_(tm.eq(a, b))
            if depth and _linear_unsat(pc + [ne]):
                return 'unsat', None
            return self.prover.check(pc + [ne])
        # lazy case split on an if-then-else condition
        for val in (True, False):
            lit = c if val else tm.not_(c)
            k = nfm.bkey(lit)
            if k == ('bc', False):
                continue
            if depth and _linear_unsat(pc + [lit]):
                continue
            if not self._slow:
                st, _ = self.prover.check(pc + [lit], 1500)
                if st == 'unsat':
                    continue
                self._slow = st == 'unknown' and depth > 1
            a2, b2 = _assume_in(a, c, val), _assume_in(b, c, val)
            st, m = self._prove_eq(a2, b2, None, depth + 1,
                                   tuple(extra) + (lit,))
            if st != 'unsat':
                return st, m
        return 'unsat', None

    # ----------------------------------------------------------------- run
    def run(self, case, body, on_candidate, on_exception, diff_hook=None):
        self.case = case
        self.stack = [[]]
        self.unknowns = []
        self.labels = set()
        self.on_candidate = on_candidate
        self.diff_hook = diff_hook
        npaths = 0
        complete = True
        while self.stack:
            if npaths >= self.max_paths or (
                    self.deadline and time.time() > self.deadline):
                complete = False
                break
            self.prefix = self.stack.pop()
            self.trace, self.pc, self.known = [], [], {}
            self.decl = {}
            env = SymEnv(self)
            self.env = env
            from . import npx
            npx._uninit[0] = 0
            tm.CURRENT = self
            try:
                body(env)
                npaths += 1
            except PathAbort:
                self.stats.infeasible += 1
            except BadPath:
                npaths += 1
            except Exception as e:
                npaths += 1
                on_exception(self, env, e)
            finally:
                tm.CURRENT = None
                env.unpatch()
        self.stats.paths += npaths
        return npaths, complete


def _conjuncts(b):
    if b.op == 'and':
        for a in b.args:
            yield from _conjuncts(a)
    else:
        yield b


def _settled(b):
    """True if rewriting alone shows b."""
    try:
        return nfm.bkey(b) == ('bc', True)
    except nfm.TooBig:
        return False


def _ites(t):
    r, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            r.append(x)
        stack.extend(x.args)
    return r


def _differing_ite(a, b):
    """The condition of an if-then-else of only one of both terms: splitting
    the common ones gains nothing."""
    try:
        ka, kb = [{nfm.key(nfm.nf(x)) for x in _ites(t)} for t in (a, b)]
        for t, o in ((a, kb), (b, ka)):
            c = _find_ite(t, o)
            if c is not None:
                return c
    except nfm.TooBig:
        pass
    return None


def _find_ite(t, common=()):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite' and common and nfm.key(nfm.nf(x)) in common:
            continue
        if x.op == 'ite':
            # prefer inner-most conditions without further ites
            c = x.args[0]
            inner = _find_ite_b(c)
            return c if inner is None else inner
        stack.extend(x.args)
    return None


def _find_ite_b(b):
    for a in b.args:
        if a.sort == 'B':
            r = _find_ite_b(a)
            if r is not None:
                return r
        else:
            r = _find_ite(a)
            if r is not None:
                return r
    return None


def _assume_in(t, c, val, ck=None):
    """Substitute the truth value of condition c inside t."""
    if ck is None:
        ck = nfm.bkey(c)
    flip = False
    if ck[0] == 'not':
        ck, flip = ck[1], True
    want = val != flip
    memo = {}

    def go(x):
        stack = [x]
        while stack:
            y = stack[-1]
            if y.id in memo:
                stack.pop()
                continue
            if y.sort == 'B' and y.op in ('lt', 'le', 'eq', 'var'):
                k = nfm.bkey(y)
                f = False
                if k[0] == 'not':
                    k, f = k[1], True
                if k == ck:
                    memo[y.id] = tm.const(want != f)
                    stack.pop()
                    continue
                if k[0] == 'bc':
                    memo[y.id] = tm.const(k[1] != f)
                    stack.pop()
                    continue
            pend = [a for a in y.args if a.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            memo[y.id] = rebuild(y, [memo[a.id] for a in y.args])
            stack.pop()
        return memo[x.id]
    return go(t)


def rebuild(y, args):
    if all(p is q for p, q in zip(args, y.args)):
        return y
    op = y.op
    f = {'add': tm.add, 'mul': tm.mul, 'div': tm.div, 'lt': tm.lt,
         'le': tm.le, 'eq': tm.eq, 'not': tm.not_, 'and': tm.and_,
         'xor': tm.xor_, 'ite': tm.ite, 'toreal': tm.to_real,
         'idiv': tm.floordiv, 'imod': tm.mod}.get(op)
    if f is not None:
        return f(*args)
    if op == 'floor':
        r = tm.floor_(args[0])
        return r.args[0] if r.op == 'toreal' else r
    return tm.fn(op, *args)


# ----------------------------------------------------------------- concrete
class ConcEnv(Env):
    sym = False

    def __init__(self, values, rng, rtol=1e-6, atol=1e-8):
        Env.__init__(self)
        self.values = values
        self.rng = rng
        self.used = {}
        self.failures = []
        self.record = []
        self.rtol, self.atol = rtol, atol

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False,
             smp=None):
        if name in self.values:
            v = float(self.values[name])
        else:
            if smp is not None:
                a, b = smp
            else:
                a = lo if lo is not None else (
                    0.05 if pos else 0. if nonneg else -3.)
                b = hi if hi is not None else (a + 6.)
            v = self.rng.uniform(float(a), float(b))
            r = self.rng.random()
            if r < 0.08:
                v = float(round(v))
                v = min(max(v, float(a)), float(b))
        if (pos and not v > 0) or (nonneg and v < 0) or \
                (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        v = int(self.values[name]) if name in self.values else \
            self.rng.randint(lo, hi)
        if v < lo or v > hi:
            raise Skip()
        self.used[name] = v
        return v

    def choose(self, name, lo, hi):
        return self.int(name, lo, hi)

    def key(self, name, n=1000):
        # few distinct names, so that random tries hit equal ones as well
        if name in self.values:
            return 'k%06d' % self.int(name, 0, n)
        v = self.rng.randint(0, min(n, 9))
        self.used[name] = v
        return 'k%06d' % v

    def keq(self, a, b):
        return a == b

    def klt(self, a, b):
        return a < b

    def bool(self, name):
        v = bool(self.values[name]) if name in self.values else \
            self.rng.random() < 0.5
        self.used[name] = v
        return v

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *cs):
        return all(cs)

    def or_(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def fn(self, name, *a):
        try:
            return tm._REAL_FN[name](*[float(x) for x in a])
        except (ValueError, OverflowError):
            return float('nan')

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, label):
        if not bool(c):
            self.failures.append((label, 'condition is false'))

    def _cmp(self, a, b, label, f, rtol, atol, what):
        a, b = _tonp(a), _tonp(b)
        if a.shape != b.shape and a.shape != () and b.shape != ():
            self.failures.append(
                (label, 'shape {} vs {}'.format(a.shape, b.shape)))
            return
        a, b = np.broadcast_arrays(a, b)
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            x, y = float(x), float(y)
            if what == 'eq':
                self.record.append((label, x, y))
            if math.isnan(x) and math.isnan(y) and what == 'eq':
                # the real code computes nan on both sides: not comparable
                continue
            tol = atol + rtol * max(abs(x) if math.isfinite(x) else 0,
                                    abs(y) if math.isfinite(y) else 0)
            if not f(x, y, tol):
                self.failures.append(
                    (label, '{!r} {} {!r} is false'.format(x, what, y)))
                return

    def eq(self, a, b, label, rtol=None, atol=None):
        self._cmp(a, b, label,
                  lambda x, y, t: x == y or abs(x - y) <= t,
                  self.rtol if rtol is None else rtol,
                  self.atol if atol is None else atol, 'eq')

    def le(self, a, b, label, rtol=None, atol=None):
        self._cmp(a, b, label, lambda x, y, t: x <= y + t,
                  self.rtol if rtol is None else rtol,
                  self.atol if atol is None else atol, 'le')

    def lt(self, a, b, label):
        self._cmp(a, b, label, lambda x, y, t: x < y + t,
                  self.rtol, self.atol, 'lt')

    def reach(self, label):
        pass


def _tonp(a):
    if hasattr(a, 'numpy'):
        a = a.numpy()
    if isinstance(a, (list, tuple)):
        a = [(_tonp(x)) for x in a]
        return np.array(a, dtype=float)
    return np.asarray(a, dtype=float)
