"""plant(id, prop, edits, demo, needs, breaks): write seeded/<id>/ after
confirming the planted bug in a scratch copy; print which check catches it."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = '/tmp/plant_{}'.format(os.getpid())
PRE = '''import os, sys, types
sys.path.insert(0, os.getcwd())
if 'getclass' not in sys.modules:
    m = types.ModuleType('getclass')
    def getclass(obj):
        cls = obj.__self__.__class__
        for c in cls.__mro__:
            if obj.__name__ in c.__dict__:
                return c
    m.getclass = getclass
    sys.modules['getclass'] = m
import numpy as np
'''
SH = '''#!/bin/bash
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **env):
    e = dict(os.environ)
    e.update(env)
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def plant(id, prop, edits, demo, needs, breaks, check=True, also=()):
    if '--only' in sys.argv and id not in sys.argv:
        return
    d = os.path.join(HERE, 'seeded', id)
    shutil.rmtree(COPY, ignore_errors=True)
    shutil.copytree('/repo', COPY, symlinks=True)
    try:
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.py', 'w') as f:
            f.write(PRE + demo)
        with open(d + '/demo.sh', 'w') as f:
            f.write(SH)
        r = sh('bash {}/demo.sh'.format(d), COPY)
        ok = r.returncode == 0
        if not ok:
            print(id, 'DEMO FAILS ON CLEAN TREE\n', r.stdout[-2000:])
        for fn, old, new in edits:
            p = os.path.join(COPY, fn)
            s = open(p).read()
            assert s.count(old) == 1, (id, fn, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', COPY).stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs,
                   'what_it_breaks': breaks}, open(d + '/meta.json', 'w'),
                  indent=1)
        r = sh('bash {}/demo.sh'.format(d), COPY)
        if r.returncode == 0:
            ok = False
            print(id, 'DEMO PASSES WITH PATCH')
        t = sh('/opt/venv/bin/python -m compileall -q egenerator >/dev/null && '
               '/opt/venv/bin/python -m pytest -q -p no:cacheprovider '
               'test/data/test_tensor.py test/settings 2>&1 | tail -3', COPY,
               PYTHONDONTWRITEBYTECODE='1', CUDA_VISIBLE_DEVICES='-1')
        if ' failed' in t.stdout or 'passed' not in t.stdout:
            ok = False
            print(id, 'TESTS', t.stdout)
        got = ''
        if check:
            for p in (prop,) + tuple(also):
                r = sh('./check.sh {} quick'.format(p), HERE,
                       VERIF_REPO=COPY, VERIF_SEED='1', VERIF_STRICT='1')
                got += ' {}:exit {} {}'.format(
                    p, r.returncode, 'CAUGHT' if r.returncode == 1 else
                    'MISSED ' + r.stdout[-600:])
        print(id, 'valid' if ok else 'INVALID', got, flush=True)
        if not ok:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(COPY, ignore_errors=True)
