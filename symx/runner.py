"""Decide one property: explore every harness case symbolically, replay the
solver's counterexamples against the real code, write the evidence file.

exit 0  every obligation discharged on every path of every case
exit 1  a counterexample was reproduced on the real code
exit 2  no verdict (solver unknown, unsupported construct, counterexample that
        the real code does not reproduce, vacuous harness, timeout)
"""
import argparse
import importlib
import inspect
import json
import os
import random
import sys
import time
import traceback
import types
import multiprocessing as mp
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup_paths():
    os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
    os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
    os.environ.setdefault('TF_NUM_INTEROP_THREADS', '1')
    os.environ.setdefault('TF_NUM_INTRAOP_THREADS', '1')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('MPLCONFIGDIR', '/tmp/symx_mpl_%d' % os.getuid())
    sys.dont_write_bytecode = True
    repo = os.environ.get('VERIF_REPO', '/repo')
    for p in (HERE, repo):
        if p not in sys.path:
            sys.path.insert(0, p)
    vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if vt not in sys.path:
        sys.path.append(vt)
    # the package getclass is not installed: component.py only needs
    # getclass.getclass(method), the class a bound method belongs to
    if 'getclass' not in sys.modules:
        m = types.ModuleType('getclass')

        def getclass(obj):
            s = getattr(obj, '__self__', None)
            if s is not None:
                return s if isinstance(s, type) else type(s)
            return obj if isinstance(obj, type) else type(obj)
        m.getclass = getclass
        sys.modules['getclass'] = m


setup_paths()

import logging                                              # noqa: E402
import numpy as np                                          # noqa: E402
from symx import terms as tm                                # noqa: E402
from symx import nf as nfm                                  # noqa: E402
from symx import engine                                     # noqa: E402
from symx.engine import (Stats, Explorer, ConcEnv, SymEnv, Skip,  # noqa
                         BadPath)
from symx.terms import Unsupported, PathAbort               # noqa: E402


class Harness(object):
    """One symbolic test: ``body(env, case)`` for each case in ``cases``.

    functions: dotted names of the real code executed symbolically.
    rtol/atol: tolerance of the concrete replay (float rounding is outside
    the claim: reals stand for floats).
    """

    def __init__(self, name, body, cases=({},), functions=(), bounds='',
                 rtol=1e-6, atol=1e-8, samples=3, timeout_ms=20000,
                 max_paths=3000, tries=60, thorough_cases=None,
                 case_seconds=240, smp_rtol=None):
        self.name, self.body = name, body
        self.cases, self.thorough_cases = list(cases), thorough_cases
        self.functions, self.bounds = list(functions), bounds
        self.rtol, self.atol, self.samples = rtol, atol, samples
        self.timeout_ms, self.max_paths = timeout_ms, max_paths
        self.tries = tries
        self.case_seconds = case_seconds

    def get_cases(self, tier):
        c = list(self.cases)
        if tier == 'thorough' and self.thorough_cases is not None:
            c = c + list(self.thorough_cases)
        return c


# ------------------------------------------------------------------- replay
def run_concrete(h, case, values, seed, rtol=None, atol=None, strict=True):
    """Run the body on plain numbers.  Returns (status, failures, env)."""
    rng = random.Random(seed)
    env = ConcEnv(dict(values), rng, h.rtol if rtol is None else rtol,
                  h.atol if atol is None else atol)
    tm.CURRENT = None
    try:
        with np.errstate(all='ignore'):
            h.body(env, case)
    except Skip:
        return 'skip', [], env
    except (Unsupported, NotImplementedError):
        raise
    except Exception as e:
        env.failures.append(('exception', '{}: {}'.format(
            type(e).__name__, str(e)[:300])))
    finally:
        env.unpatch()
    if env.failures:
        return 'fail', env.failures, env
    return 'ok', [], env


def _json(v):
    if isinstance(v, (Fraction, np.floating)):
        return float(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.bool_):
        return bool(v)
    return v


class _Vals(dict):
    lazies = {}

    def __missing__(self, k):
        n, s, i = str(k).partition('@')
        if s and n in self.lazies:
            return float(self.lazies[n][int(i)])
        raise KeyError(k)


class Guided(object):
    """Symbolic run along the path of one concrete valuation: validates the
    translation (term values against the real results)."""

    def __init__(self, values):
        self.values = values
        self.record = []
        self.decl = {}
        self.cache = {}
        self.reached = set()
        self.missing = False

    def ev(self, t):
        return tm.evaluate(t, self.values, self.cache)

    def decide(self, b):
        return bool(self.ev(b))

    def concretize(self, t):
        return int(self.ev(t))

    def assume(self, c):
        pass

    def oblige(self, bs, label):
        pass

    def oblige_eq(self, pairs, label):
        for a, b in pairs:
            self.record.append((label, self.ev(tm.as_num(a)),
                                self.ev(tm.as_num(b))))


def differential(h, case, cenv):
    """Compare the symbolic semantics with the real run (same inputs)."""
    vals = _Vals(cenv.used)
    vals.lazies = cenv.lazies
    g = Guided(vals)
    env = SymEnv(g)
    tm.CURRENT = g
    try:
        h.body(env, case)
    except (PathAbort, BadPath):
        return None
    except KeyError:
        return None
    finally:
        tm.CURRENT = None
        env.unpatch()
    a = [r for r in cenv.record]
    b = g.record
    if len(a) != len(b):
        return 'records {} vs {}'.format(len(b), len(a))
    for (l1, x1, y1), (l2, x2, y2) in zip(a, b):
        for u, v in ((x1, x2), (y1, y2)):
            u, v = float(u), float(v)
            if not (np.isfinite(u) and np.isfinite(v)):
                continue
            if abs(u - v) > 1e-2 * max(1., abs(u), abs(v)):
                return '{}: real {} symbolic {}'.format(l1, u, v)
    return None


# ------------------------------------------------------------------ one case
def run_case(h, case, seed, tier, prop):
    """Returns a plain dict (pickled back to the parent)."""
    t0 = time.time()
    tm.reset()
    stats = Stats()
    out = {'harness': h.name, 'case': case, 'violations': [], 'errors': [],
           'labels': {}, 'samples': []}
    found = set()

    def add_violation(label, values, detail, seed_):
        key = (label,)
        if key in found:
            return
        found.add(key)
        out['violations'].append({
            'harness': h.name, 'case': case, 'label': label,
            'values': {k: _json(v) for k, v in values.items()},
            'detail': detail, 'seed': seed_})

    def try_replay(label, values, seed_):
        stats.replays += 1
        try:
            st, fails, env = run_concrete(h, case, values, seed_)
        except Unsupported as e:
            out['errors'].append('replay unsupported: {}'.format(e))
            return False
        if st == 'fail':
            # prefer the label itself; any failure of the body counts
            fl = [f for f in fails if f[0] == label] or fails
            add_violation(fl[0][0], dict(env.used), fl[0][1], seed_)
            return True
        return False

    def replay(label, model, decl, what):
        vals = {k: v for k, v in (model or {}).items() if k in decl}
        if what == 'sat' and try_replay(label, vals, seed):
            return True
        rng = random.Random(seed * 7919 + 13)
        disc = {k: v for k, v in vals.items() if decl[k][0] in 'IB'}
        n = h.tries
        for i in range(n):
            if i % 3 == 0 and vals:
                # keep the model, perturb some reals
                v = dict(disc)
                for k in vals:
                    if decl[k][0] == 'R' and rng.random() < 0.6:
                        v[k] = vals[k]
            elif i % 3 == 1:
                v = dict(disc)
            else:
                v = {}
            if try_replay(label, v, seed + 1 + i):
                return True
        return False

    dead = set()

    def on_candidate(x, label, model, what):
        out['labels'].setdefault(label, 0)
        if label in dead:
            raise BadPath()
        if replay(label, model, x.decl, what):
            dead.add(label)
            raise BadPath()
        dead.add(label)
        out['errors'].append(
            '{} for "{}" not reproduced on the real code: {}'.format(
                'counterexample' if what == 'sat' else 'solver unknown',
                label, {k: str(v)[:20] for k, v in list(model.items())[:12]}))
        raise BadPath()

    exc_seen = set()

    def on_exception(x, env, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = '; '.join('{}:{}'.format(os.path.basename(f.filename),
                                         f.lineno) for f in tb[-6:])
        name = type(e).__name__
        if (name, where) in exc_seen:
            return
        exc_seen.add((name, where))
        if isinstance(e, (Unsupported, NotImplementedError)):
            # the translator gave up: look for a concrete failure anyway
            st = 'unsupported'
        else:
            st = 'exception'
        r, m = x.prover.check(list(x.pc), 5000)
        if r == 'unsat':
            return
        if replay('exception', m or {}, x.decl,
                  'sat' if r == 'sat' else 'unknown'):
            return
        out['errors'].append('{} {}: {} at {}'.format(
            st, name, str(e)[:300], where))

    # the solver's exploration of every path
    complete = True
    sat_paths = [0]
    x = None
    if True:
        x = Explorer(stats, h.timeout_ms, h.max_paths,
                     deadline=t0 + h.case_seconds)
        if tier == 'thorough':
            x.prover.cross = True

        def body(env):
            h.body(env, case)
            # reachability twin: the end of at least one path is reachable
            if sat_paths[0] < 1:
                st, _ = x.prover.check(list(x.pc), 8000)
                if st == 'sat':
                    sat_paths[0] += 1
                elif st == 'unknown':
                    sat_paths[0] += 0
        n, complete = x.run(case, body, on_candidate, on_exception)
        out['labels'] = {l: out['labels'].get(l, 0) for l in x.reached}
        if not complete:
            out['errors'].append('path budget exhausted after {} paths'
                                 .format(n))
    # concrete samples: validate the translation, expose gross failures
    tm.reset()
    nsamp = 0 if out['violations'] else h.samples * (4 if tier == 'thorough' else 1)
    k = done = 0
    while done < nsamp and k < nsamp * 20:
        k += 1
        try:
            st, fails, env = run_concrete(h, case, {}, seed * 1000 + k,
                                          rtol=20 * h.rtol, atol=20 * h.atol)
        except Unsupported as e:
            out['errors'].append('sample unsupported: {}'.format(e))
            break
        if st == 'skip':
            continue
        done += 1
        stats.samples += 1
        if len(out['samples']) < 2:
            out['samples'].append({kk: _json(v) for kk, v in
                                   list(env.used.items())[:12]})
        if st == 'fail':
            add_violation(fails[0][0], dict(env.used), fails[0][1],
                          seed * 1000 + k)
            break
        if done <= 2:
            try:
                d = differential(h, case, env)
            except Unsupported:
                d = None
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                d = 'exception {!r} at {}'.format(e, '; '.join(
                    '{}:{}'.format(os.path.basename(f.filename), f.lineno)
                    for f in tb[-5:]))
            stats.differential += 1
            if d:
                out['errors'].append('translation differs: ' + d)
    if True:
        if not out['violations'] and not out['errors']:
            if not x.reached:
                out['errors'].append('vacuous: no obligation reached')
            elif not sat_paths[0]:
                # reachability by a concrete sample counts as well
                if not stats.samples:
                    out['errors'].append('vacuous: no reachable path end')
    out['stats'] = {k: (v if not isinstance(v, list) else len(v))
                    for k, v in stats.__dict__.items()}
    out['wall'] = time.time() - t0
    return out


def _worker(conn, h, case, seed, tier, prop):
    try:
        logging.disable(logging.CRITICAL)
        import warnings
        warnings.simplefilter('ignore')
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get('SYMX_VERBOSE'):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        sys.setrecursionlimit(20000)
        r = run_case(h, case, seed, tier, prop)
    except BaseException as e:
        r = {'harness': h.name, 'case': case, 'violations': [],
             'errors': ['crash: {!r} {}'.format(
                 e, traceback.format_exc()[-1500:])],
             'labels': {}, 'stats': {}, 'samples': [], 'wall': 0}
    try:
        conn.send(r)
    except Exception as e:
        conn.send({'harness': h.name, 'case': case, 'violations': [],
                   'errors': ['unpicklable result {!r}'.format(e)],
                   'labels': {}, 'stats': {}, 'samples': [], 'wall': 0})
    conn.close()
    os._exit(0)


def run_jobs(jobs, seed, tier, prop, nproc, limit):
    ctx = mp.get_context('fork')
    results, running, queue = [], [], list(jobs)
    stop = False
    while queue or running:
        while queue and len(running) < nproc and not stop:
            h, case = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker,
                            args=(b, h, case, seed, tier, prop))
            p.start()
            b.close()
            running.append((p, a, h, case, time.time()))
        if stop:
            queue = []
        rest = []
        for p, a, h, case, t in running:
            r = None
            if a.poll(0.01):
                try:
                    r = a.recv()
                except EOFError:
                    r = {'harness': h.name, 'case': case, 'violations': [],
                         'errors': ['worker died'], 'labels': {},
                         'stats': {}, 'samples': [], 'wall': 0}
            elif time.time() - t > min(h.case_seconds + 30, limit):
                p.terminate()
                r = {'harness': h.name, 'case': case, 'violations': [],
                     'errors': ['timeout'], 'labels': {}, 'stats': {},
                     'samples': [], 'wall': time.time() - t}
            if r is None:
                rest.append((p, a, h, case, t))
            else:
                p.join(5)
                if p.is_alive():
                    p.kill()
                results.append(r)
        running = rest
    return results


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('finding: property=' + prop + ' '):
                continue
            # finding: property=Pxx harness=<h> label=<l...> | description
            head, _, desc = line.partition(' | ')
            d = {}
            for tok in head.split(' ')[1:]:
                k, _, v = tok.partition('=')
                d[k] = v.replace('%20', ' ')
            d['desc'] = desc
            out.append(d)
    return out


def matches(f, v):
    return f.get('harness') == v['harness'] and \
        f.get('label') == v['label'] and (
            'case' not in f or f['case'] == json.dumps(
                v['case'], sort_keys=True).replace(' ', ''))


def load(prop):
    return importlib.import_module('props.' + prop)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--case', type=int)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--nproc', type=int, default=int(
        os.environ.get('SYMX_NPROC', os.cpu_count() or 4)))
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    t0 = time.time()
    try:
        mod = load(a.prop)
    except Exception as e:
        traceback.print_exc()
        print('ERROR property={} cannot load the harness: {!r}'.format(
            a.prop, e))
        return 2
    hs = {h.name: h for h in mod.HARNESSES}
    if a.replay:
        v = json.load(open(a.replay))
        h = hs[v['harness']]
        st, fails, env = run_concrete(h, v['case'], v['values'], v['seed'])
        print('replay', st, fails)
        for k, x in list(env.used.items())[:40]:
            print('   ', k, '=', x)
        return 1 if st == 'fail' else 0
    jobs = []
    for h in mod.HARNESSES:
        if a.only and h.name != a.only:
            continue
        cs = h.get_cases(a.tier)
        for i, c in enumerate(cs):
            if a.case is None or a.case == i:
                jobs.append((h, c))
    limit = 840 if a.tier == 'quick' else 3600
    res = run_jobs(jobs, seed, a.tier, a.prop, a.nproc, limit)
    kf = known_findings(a.prop)
    viol, known, errors = [], [], []
    for r in res:
        for v in r['violations']:
            f = [k for k in kf if matches(k, v)]
            (known if f else viol).append((v, f))
        for e in r['errors']:
            errors.append((r['harness'], r['case'], e))
        if a.v:
            st = r['stats']
            print('[{}] {} {:.1f}s paths={} q={} nf={} rep={} lab={}'.format(
                r['harness'], json.dumps(r['case'])[:90], r['wall'],
                st.get('paths'), st.get('queries'), st.get('nf_equal'),
                st.get('replays'), len(r['labels'])))
    wall = time.time() - t0
    tot = {}
    for r in res:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    write_evidence(a, mod, res, tot, viol, known, errors, seed, wall)
    for f in kf:
        hit = any(f in fs for _, fs in known)
        if hit:
            print('KNOWN-FINDING: property={} {}'.format(a.prop, f['desc']))
    if viol:
        d = os.environ.get('SYMX_REPLAY_DIR', '/tmp/symx_replay')
        os.makedirs(d, exist_ok=True)
        for n, (v, _) in enumerate(viol[:8]):
            path = os.path.join(d, '{}_{}_{}.json'.format(
                a.prop, v['harness'], n))
            json.dump(v, open(path, 'w'), indent=1)
            print('  {} case={} "{}": {}'.format(
                v['harness'], json.dumps(v['case']), v['label'],
                v['detail']))
            print('VIOLATION property={} replay={}'.format(a.prop, path))
        return 1
    if errors:
        # cases the translator or the solver gave up on: no verdict for them
        bad = {(h, json.dumps(c)) for h, c, _ in errors}
        strict = os.environ.get('VERIF_STRICT') or len(bad) >= len(res)
        for h, c, e in errors[:6]:
            print('{} property={} harness={} case={} {}'.format(
                'ERROR' if strict else 'UNDECIDED', a.prop, h,
                json.dumps(c)[:100], e[:400]))
        if strict:
            return 2
        print('{} of {} cases decided'.format(len(res) - len(bad), len(res)))
    print('OK property={} paths={} queries={} obligations={} '
          'replays={} solver={:.1f}s wall={:.1f}s'.format(
              a.prop, tot.get('paths', 0), tot.get('queries', 0),
              tot.get('obligations', 0), tot.get('replays', 0),
              tot.get('solver_s', 0.), wall))
    return 0


def write_evidence(a, mod, res, tot, viol, known, errors, seed, wall):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {
        'property': a.prop,
        'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': int(tot.get('paths', 0)),
            'transitions': int(tot.get('queries', 0)),
            'traces_validated_against_impl': int(
                tot.get('differential', 0)),
            'queries_discharged': int(tot.get('discharged', 0)),
            'settled_by_rewriting': int(tot.get('nf_equal', 0)),
            'obligations': int(tot.get('obligations', 0)),
            'branch_queries': int(tot.get('branch_queries', 0)),
            'solver_seconds': round(tot.get('solver_s', 0.), 3),
            'counterexample_replays': int(tot.get('replays', 0)),
            'concrete_samples': int(tot.get('samples', 0)),
            'functions_encoded': sorted({f for h in mod.HARNESSES
                                         for f in h.functions}),
            'bounds': {h.name: h.bounds for h in mod.HARNESSES},
            'cases': len(res),
            'labels': sorted({l for r in res for l in r['labels']}),
            'solver': 'z3 (python, nlsat fallback), cvc5 fallback',
            'cases_without_verdict': len(
                {(h, json.dumps(c)) for h, c, _ in errors}),
            'errors': ['{} {} {}'.format(*e)[:500] for e in errors[:20]],
            'known_findings': len(known),
            'samples': [s for r in res for s in r['samples']][:4],
        },
        'wall_s': round(wall, 3),
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'floating point numbers are modelled as reals; transcendental '
            'functions are uninterpreted with stated axioms'],
        'violations': [{'case': json.dumps(v['case'])[:200],
                        'harness': v['harness'], 'label': v['label'],
                        'detail': str(v['detail'])[:300]}
                       for v, _ in viol],
    }
    path = os.path.join(HERE, 'evidence', a.prop + '.json')
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, path)


if __name__ == '__main__':
    from symx import runner as _r
    sys.exit(_r.main())
