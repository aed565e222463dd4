"""Mutation trials: small random changes of qopt, run against the checks.

    tools/mutate.py list [SEED N]              # print mutants
    tools/mutate.py run SEED N OUT [JOBS]      # OUT gets one line per mutant

A trial works on scratch copies below /tmp.  Survivors are read by hand: they
are equivalent, pure numerics, or show what a check misses.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {'solver_algorithms': 5, 'optimize': 4, 'simulator': 3, 'noise': 3,
         'transfer_function': 4, 'cost_functions': 3, 'data_container': 3, 'analyser': 2,
         'optimization_data': 1, 'parallel': 1, 'matrix': 1, 'amplitude_functions': 1}
ORDER = {'solver_algorithms': 'C17 C19 C01 C02 C03 C22 C21 C15 C14 C11 C16 C04 C05',
         'optimize': 'C07 C08 C06 C13 C14 C05 C11 C16 C10',
         'simulator': 'C24 C07 C14 C01 C02 C08 C06 C11',
         'noise': 'C12 C03 C04 C22 C16 C11',
         'transfer_function': 'C19 C17 C15 C01 C02 C23 C11',
         'cost_functions': 'C20 C19 C01 C03 C02 C21 C22 C04 C11',
         'data_container': 'C10 C09', 'analyser': 'C10', 'optimization_data': 'C10 C07 C05 C08',
         'parallel': 'C05', 'matrix': 'C18 C17 C20 C01 C11 C03 C02',
         'amplitude_functions': 'C19 C17 C01 C02 C23 C11'}
RUNS = {'C05': 250, 'C11': 300, 'C16': 250, 'C01': 700, 'C02': 700, 'C03': 600,
        'C18': 2000, 'C17': 700, 'C19': 700, 'C20': 700, 'C23': 300, 'C24': 300}


def mutants(name):
    src = open('%s/qopt/%s.py' % (REPO, name)).read()
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []
    tree = ast.parse(src)
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or fn.name in ('plot_pulse', 'plot', '__repr__'):
            continue
        for n in ast.walk(fn):
            if isinstance(n, (ast.Assign, ast.AugAssign)) or (
                    isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                if isinstance(n, ast.Expr) and 'warn' in text(n):
                    continue
                out.append((fn.name, 'delete', span(n), 'pass'))
            elif isinstance(n, ast.Call):
                f = text(n.func)
                if f in ('np.copy', 'copy.deepcopy', 'copy.copy', 'np.array', 'np.asarray',
                         'list', 'dict') and len(n.args) >= 1:
                    out.append((fn.name, 'alias', span(n), '(%s)' % text(n.args[0])))
                elif f.endswith('.copy') and not n.args:
                    out.append((fn.name, 'alias', span(n), text(n.func.value)))
            elif isinstance(n, ast.If):
                out.append((fn.name, 'true', span(n.test), 'True'))
                out.append((fn.name, 'false', span(n.test), 'False'))
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                sw = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>'}.get(type(n.ops[0]))
                if sw:
                    out.append((fn.name, 'compare', span(n), '%s %s %s' % (
                        text(n.left), sw, text(n.comparators[0]))))
            elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
                out.append((fn.name, 'half', span(n), text(n.values[0])))
                out.append((fn.name, 'half', span(n), text(n.values[1])))
            elif isinstance(n, ast.Constant) and type(n.value) in (int, bool):
                v = (not n.value) if isinstance(n.value, bool) else n.value + 1
                out.append((fn.name, 'constant', span(n), repr(v)))
    seen, res = set(), []
    for m in out:
        if m[2] + (m[3],) in seen:
            continue
        seen.add(m[2] + (m[3],))
        line = raw[:m[2][0]].count(b'\n') + 1
        res.append({'file': name, 'fn': m[0], 'kind': m[1], 'span': m[2], 'new': m[3],
                    'line': line, 'old': raw[m[2][0]:m[2][1]].decode()[:160]})
    return res


def sample(seed, n):
    r = random.Random(seed)
    pools = {f: mutants(f) for f in FILES}
    names = [f for f, w in FILES.items() for _ in range(w)]
    out = []
    while len(out) < n:
        p = pools[r.choice(names)]
        if p:
            out.append(p.pop(r.randrange(len(p))))
    return out


def apply(m, repo):
    p = '%s/qopt/%s.py' % (repo, m['file'])
    raw = open(p, 'rb').read()
    a, b = m['span']
    new = raw[:a] + m['new'].encode() + raw[b:]
    ast.parse(new)
    open(p, 'wb').write(new)


def trial(m, all_checks=True):
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        shutil.copytree(REPO + '/qopt', d + '/qopt')
        try:
            apply(m, d)
        except SyntaxError:
            return dict(m, result='syntax')
        env = dict(os.environ, QOPT_REPO=d, SIM_JOBS='2')
        order = ORDER[m['file']].split()
        for c in order:
            runs = RUNS.get(c, 500)
            try:
                p = subprocess.run([VERIF + '/bin/check', c, '--runs', str(runs), '--seed', '99',
                                    '--no-evidence', '--no-shrink'], env=env, cwd=VERIF,
                                   capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return dict(m, result='timeout:' + c)
            if p.returncode == 1:
                return dict(m, result='caught:' + c)
            if p.returncode != 0:
                return dict(m, result='error:%s:%s' % (c, (p.stdout + p.stderr)[-300:]))
        return dict(m, result='SURVIVED')
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1] == 'list':
        for m in sample(int(sys.argv[2]), int(sys.argv[3])):
            print(m['file'], m['line'], m['fn'], m['kind'], repr(m['old'][:70]), '->', m['new'][:40])
        return
    ms = sample(int(sys.argv[2]), int(sys.argv[3]))
    with open(sys.argv[4], 'a') as f, ThreadPoolExecutor(
            int(sys.argv[5]) if len(sys.argv) > 5 else 3) as ex:
        for r in ex.map(trial, ms):
            f.write(json.dumps(r) + '\n')
            f.flush()


main()
