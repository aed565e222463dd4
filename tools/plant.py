#!/usr/bin/env python3
"""Planted bugs: `plant.py verify ID...` confirms that the patch applies, keeps
the stable tests passing and that the demonstration separates the two trees;
`plant.py catch ID... [-- C01 C02]` runs checks (default: the one of meta.json)
against a scratch copy with the patch."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '403d61b'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def sh(cmd, cwd, env=ENV, timeout=1200):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def copy(i):
    d = tempfile.mkdtemp(prefix='plant-%s-' % i, dir='/tmp')
    sh('cp -a /repo %s/repo' % d, '/')
    return d


def verify(i):
    s = os.path.join(V, 'seeded', i)
    d = copy(i)
    r = d + '/repo'
    e = dict(ENV, PYTHONPATH=r)
    try:
        demo = d + '/demo'
        shutil.copytree(s, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        json.load(open(s + '/meta.json'))
        a = sh('bash %s/demo.sh' % demo, r, e)
        if a.returncode:
            return i, 'demo fails on the unchanged tree:\n' + a.stdout[-1500:]
        p = sh('git apply --check %s/patch.diff && git apply %s/patch.diff' % (s, s), r)
        if p.returncode:
            return i, 'patch: ' + p.stdout
        b = sh('bash %s/demo.sh' % demo, r, e)
        if b.returncode == 0:
            return i, 'demo passes with the patch'
        # removed lines must be original
        out = sh('git diff -U0', r).stdout
        orig = set()
        removed = []
        f = None
        for l in out.splitlines():
            if l.startswith('--- a/'):
                f = l[6:]
                orig = set(x.strip() for x in sh('git show %s:%s' % (BASE, f), r).stdout.splitlines())
            elif l.startswith('-'):
                removed.append((l[1:].strip(), l[1:].strip() in orig))
        own = [x for x, o in removed if not o]
        t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --timeout=300 '
               "--continue-on-collection-errors -o 'python_files=*.py' -o junit_family=xunit2 "
               '--junitxml=%s/j.xml qopt_tests temp/unrefactored_integration_tests; '
               'python3 /opt/vp/results.py %s/t.json junit:%s/j.xml' % (d, d, d), r,
               dict(e, PYTHONHASHSEED='0'))
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        lost = base - set(json.load(open(d + '/t.json'))['passed'])
        if lost:
            return i, 'tests lost: %s' % lost
        return i, 'ok%s  demo: %s' % (
            '' if removed and not own else '  (own/none removed: %r of %d)' % (own, len(removed)),
            b.stdout.strip().splitlines()[-1:] )
    finally:
        shutil.rmtree(d)


def catch(i, props):
    s = os.path.join(V, 'seeded', i)
    props = props or [json.load(open(s + '/meta.json'))['property']]
    d = copy(i)
    try:
        sh('git apply %s/patch.diff' % s, d + '/repo')
        out = []
        for p in props:
            r = sh('%s/bin/check %s --no-evidence --tier quick' % (V, p), V,
                   dict(os.environ, QOPT_REPO=d + '/repo', VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append('%s: %d %s' % (p, r.returncode, (v or r.stdout.splitlines()[-1:])[0][:150]))
        return i, '; '.join(out)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    mode, args = sys.argv[1], sys.argv[2:]
    props = []
    if '--' in args:
        k = args.index('--')
        args, props = args[:k], args[k + 1:]
    args = [os.path.basename(a) for a in args]
    ids = args or sorted(os.listdir(V + '/seeded'))
    with ThreadPoolExecutor(6 if mode == 'verify' else 1) as ex:
        for i, m in ex.map((lambda i: verify(i)) if mode == 'verify' else
                           (lambda i: catch(i, props)), ids):
            print('%-28s %s' % (i, m), flush=True)
