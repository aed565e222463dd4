"""Batch runner: seeds -> forked runs -> shrink -> replay file -> evidence."""
import gc
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from . import seams
seams.install()
from . import kernel
from .kernel import Ctx, R, Violation, derive, forked

now = seams.REAL['time.monotonic']


def load(cid):
    return importlib.import_module('sim.checks.' + cid.lower())


# --------------------------------------------------------------- one run
def execute(mod, scenario):
    """Run one scenario in this (throw-away) process -> result dict."""
    import numpy as np
    import random
    import warnings
    ctx = Ctx()
    random.seed(12345)
    np.random.seed(12345)
    kernel.reset_world()
    res = {'violation': None, 'error': None}
    devnull = open(os.devnull, 'w')
    so, se = sys.stdout, sys.stderr
    fds = None
    if not os.environ.get('SIM_DEBUG'):
        so.flush(), se.flush()
        sys.stdout = sys.stderr = devnull
        fds = os.dup(1), os.dup(2)          # compiled code writes there directly
        os.dup2(devnull.fileno(), 1), os.dup2(devnull.fileno(), 2)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                ctx.new_clock()
                mod.execute(scenario, ctx)
    except Violation as v:
        res['violation'] = {'sig': v.sig, 'message': str(v.message)[:3000]}
    except BaseException as e:
        if isinstance(e, SystemExit):
            raise
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
        if isinstance(e, Exception) and kernel.sut_frame(e):
            # a request that has to be answered was not
            res['violation'] = {'sig': 'unexpected-exception:' + type(e).__name__,
                                'message': text[-3000:]}
        else:
            res['error'] = text
    finally:
        sys.stdout, sys.stderr = so, se
        if fds:
            os.dup2(fds[0], 1), os.dup2(fds[1], 2)
            os.close(fds[0]), os.close(fds[1])
    if os.environ.get('SIM_LOG'):
        with open(os.environ['SIM_LOG'], 'w') as f:
            for e in ctx.events:
                f.write(repr(e) + '\n')
    clock = ctx.clock
    kernel.reset_world()
    res.update(digest=ctx.digest(), interleaving=ctx.interleaving(),
               n_events=len(ctx.events), faults=dict(ctx.faults),
               probes=dict(ctx.probes), states=sorted(ctx.states),
               nontrivial=bool(ctx.nontrivial), evaluations=ctx.evaluations,
               simtime=(clock.total if clock else 0.) + ctx.extra_time)
    return res


def scenario_of(mod, seed, index, tier):
    s = mod.generate(R(derive('scenario', mod.ID, seed, index)), tier)
    return json.loads(json.dumps(s))    # what is executed is what is stored


def run_index(mod, seed, index, tier):
    scenario = scenario_of(mod, seed, index, tier)
    res = execute(mod, scenario)
    res['index'] = index
    if res['violation'] or res['error'] or index < 3:
        res['scenario'] = scenario
    return res


# ------------------------------------------------------------------ batch
def batch(mod, seed, tier, n_runs, wall_cap, jobs, start=0):
    """Run indices start..start+n_runs-1 on `jobs` zygotes; list of results."""
    t0 = now()
    pipes = []
    import random as _random
    nonce = '%d' % os.getpid()
    stop_file = '/tmp/.simstop-' + nonce
    if os.path.exists(stop_file):
        os.remove(stop_file)
    gc.collect()
    gc.freeze()
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for p, rr in pipes:
                    os.close(rr)
                out = os.fdopen(w, 'w')
                for i in range(start + j, start + n_runs, jobs):
                    if now() - t0 > wall_cap or os.path.exists(stop_file):
                        break
                    res = forked(lambda: run_index(mod, seed, i, tier))
                    res.setdefault('index', i)
                    out.write(json.dumps(res) + '\n')
                    out.flush()
                out.close()
            finally:
                os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    results = []
    bufs = {r: b'' for _, r in pipes}
    violated = 0
    while bufs:
        ready, _, _ = select.select(list(bufs), [], [], 5.)
        for r in ready:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                os.close(r)
                del bufs[r]
                continue
            bufs[r] += chunk
            *lines, bufs[r] = bufs[r].split(b'\n')
            for line in lines:
                res = json.loads(line)
                results.append(res)
                if res['violation'] and not known(mod.ID, res['violation']):
                    violated += 1
                    if violated >= 3:
                        open(stop_file, 'w').close()
    for pid, _ in pipes:
        os.waitpid(pid, 0)
    if os.path.exists(stop_file):
        os.remove(stop_file)
    results.sort(key=lambda x: x['index'])
    return results, now() - t0


# ---------------------------------------------------------------- known
_KNOWN = None


def known_findings():
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = []
        path = os.path.join(VERIF, 'known_findings.txt')
        for line in open(path):
            line = line.strip()
            # finding: property=<id> sig=<exact class> what...
            if line.startswith('finding:'):
                _, prop, sig, what = line.split(None, 3)
                _KNOWN.append((prop.split('=')[1], sig.split('=', 1)[1], what))
    return _KNOWN


def known(cid, violation):
    for prop, sig, what in known_findings():
        if prop == cid and sig == violation['sig']:
            return what
    return None


# --------------------------------------------------------------- shrink
def list_reductions(xs):
    """ddmin style: drop big chunks first, then single elements."""
    n = len(xs)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield xs[:i] + xs[i + size:]
        size //= 2


def candidates(mod, s):
    for key in getattr(mod, 'SHRINK_LISTS', ()):
        xs = s.get(key)
        if isinstance(xs, list) and xs:
            for ys in list_reductions(xs):
                c = dict(s)
                c[key] = ys
                yield c
    if hasattr(mod, 'simplify'):
        for c in mod.simplify(json.loads(json.dumps(s))):
            yield c


def shrink(mod, scenario, sig, budget_s=60., max_evals=400):
    t0 = now()
    evals = 0
    best = scenario
    progress = True
    while progress:
        progress = False
        for c in candidates(mod, best):
            if now() - t0 > budget_s or evals >= max_evals:
                return best, evals
            if c == best:
                continue
            evals += 1
            res = forked(lambda: execute(mod, json.loads(json.dumps(c))), 60.)
            if res['violation'] and res['violation']['sig'] == sig:
                best = c
                progress = True
                break
    return best, evals


# ---------------------------------------------------------------- replay
def replay(path):
    data = json.load(open(path))
    mod = load(data['property'])
    setup(mod)
    res = forked(lambda: execute(mod, data['scenario']))
    return data, res


def setup(mod):
    seams.import_sut()
    if hasattr(mod, 'setup'):
        mod.setup()


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--index', type=int, help='run a single index verbosely')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SIM_JOBS', 8)))
    ap.add_argument('--digests', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--no-shrink', action='store_true')
    a = ap.parse_args(argv)
    cid = a.property
    if a.replay:
        data, res = replay(a.replay)
        if res['error']:
            print('ERROR', res['error'])
            return 2
        v = res['violation']
        if v:
            print('reproduced: %s: %s' % (v['sig'], v['message']))
            print('digest %s' % res['digest'])
            if known(cid, v):
                print('KNOWN-FINDING: property=%s %s' % (cid, known(cid, v)))
                return 0
            print('VIOLATION property=%s replay=%s' % (cid, a.replay))
            return 1
        print('the scenario does not violate %s' % cid)
        return 0
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    mod = load(cid)
    t0 = now()
    setup(mod)
    if a.index is not None:
        s = scenario_of(mod, a.seed, a.index, tier)
        print(json.dumps(s))
        res = forked(lambda: execute(mod, s))
        print(json.dumps({k: v for k, v in res.items() if k != 'states'}, indent=1)
              .replace('\\n', '\n'))
        return 0
    runs = a.runs or mod.RUNS[tier]
    cap = {'quick': 240., 'thorough': 5400.}[tier]
    print('property=%s seed=%d tier=%s runs=%d jobs=%d' %
          (cid, a.seed, tier, runs, a.jobs), flush=True)
    results, batch_s = batch(mod, a.seed, tier, runs, cap, a.jobs, a.start)
    if a.digests:
        for r in results:
            print(r['index'], r.get('digest'), (r['violation'] or {}).get('sig'))
    return conclude(mod, cid, a, tier, runs, results, batch_s, t0)


def report(mod, cid, a, tier, violations, n):
    """Minimise a violation, write its replay file and replay it."""
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for number, v in enumerate(violations[:3]):
        sig = v['violation']['sig']
        small, evals = shrink(mod, v['scenario'], sig)
        path = os.path.join(VERIF, 'replays', '%s-%d-%d.json' % (cid, a.seed, v['index']))
        for scenario in (small, v['scenario']):
            res = forked(lambda: execute(mod, scenario))
            found = res['violation'] or v['violation']
            with open(path, 'w') as f:
                json.dump({'property': cid, 'seed': a.seed, 'index': v['index'],
                           'tier': tier, 'sig': sig, 'message': found['message'],
                           'digest': res.get('digest'), 'shrink_evaluations': evals,
                           'scenario': scenario}, f, indent=1)
            p = subprocess.run([os.path.join(VERIF, 'bin', 'check'), cid,
                                '--replay', path], capture_output=True,
                               text=True, env=dict(os.environ), cwd=VERIF)
            if p.returncode == 1 and ('reproduced: ' + sig) in p.stdout:
                print('violation class %s in run %d (%d of %d runs violate)' %
                      (sig, v['index'], len(violations), n))
                print(found['message'])
                print('replayed in a fresh process: the same violation')
                print('VIOLATION property=%s replay=%s' % (cid, path))
                return 1, path
    print('%d of %d runs violate (first: %s, %s) but no replay in a fresh process '
          'reproduced it: the code under test depends on something that is not simulated'
          % (len(violations), n, sig, found['message']))
    print(p.stdout[-2000:], p.stderr[-2000:])
    print('VIOLATION property=%s replay=%s' % (cid, path))
    return 1, path


def conclude(mod, cid, a, tier, runs, results, batch_s, t0):
    errors = [r for r in results if r['error']]
    violations, finds = [], {}
    for r in results:
        if r['violation']:
            w = known(cid, r['violation'])
            if w:
                finds[w] = finds.get(w, 0) + 1
            else:
                violations.append(r)
    good = [r for r in results if not r['error']]
    faults, probes, states = {}, {}, set()
    for r in good:
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
        states.update(r['states'])
    inter = {r['interleaving'] for r in good}
    nontrivial = {r['interleaving'] for r in good if r['nontrivial']}
    rate = len(good) / max(batch_s, 1e-9) * 3600.
    samples = []
    for r in results:
        if 'scenario' in r and len(samples) < 2 and not r['error']:
            samples.append({'index': r['index'], 'events': r['n_events'],
                            'faults': r['faults'], 'scenario': r['scenario']})
    for w, n in finds.items():
        print('KNOWN-FINDING: property=%s %s (%d runs)' % (cid, w, n))
    replay_path = None
    code = 0
    if violations and a.no_shrink:
        print('violates', violations[0]['violation']['sig'])
        return 1
    if violations:
        code, replay_path = report(mod, cid, a, tier, violations, len(results))
    if errors:
        print('ERROR: %d runs ended with an error of the harness; run %d:\n%s' %
              (len(errors), errors[0]['index'], errors[0]['error']))
        if code == 0 and len(errors) > max(1, runs // 200):
            code = 2
    if not violations and len(good) < max(10, runs // 5):
        print('ERROR: only %d of %d runs were executed' % (len(good), runs))
        code = code or 2
    wall = now() - t0
    zero = [p for p in getattr(mod, 'PROBES', ()) if not probes.get(p)]
    zero += ['fault:' + f for f in getattr(mod, 'FAULTS', ()) if not faults.get(f)]
    if zero and not violations:
        print('note: never reached in this batch: ' + ', '.join(zero))
    evidence = {
        'property': cid, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
        'wall_s': round(wall, 3), 'violations': len(violations),
        'coverage': {
            'evaluations': len(good),
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': samples,
            'simulated_runs': len(good),
            'planned_runs': runs,
            'first_run_index': a.start,
            'runs_per_hour': round(rate),
            'seeds': 'run i is generated from sha256("scenario", %s, VERIF_SEED=%d, i)'
                     % (cid, a.seed),
            'simulated_seconds': round(sum(r['simtime'] for r in good), 3),
            'events': sum(r['n_events'] for r in good),
            'answers_compared_with_the_oracle': sum(r['evaluations'] for r in good),
            'faults_fired': dict(sorted(faults.items())),
            'runs_with_faults': sum(1 for r in good if r['faults']),
            'probes_hit': dict(sorted(probes.items())),
            'never_reached': zero,
            'distinct_interleavings': len(inter),
            'distinct_states': len(states),
            'state_measure': mod.STATE_MEASURE,
            'components_real': mod.REAL,
            'components_stub': mod.STUB,
            'harness_errors': len(errors),
            'known_findings': finds,
            'jobs': a.jobs,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % cid)
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, 'evidence', cid + '.json'))
    print('runs=%d (%.0f/h) events=%d oracle=%d nontrivial=%d interleavings=%d '
          'states=%d simulated=%.0fs wall=%.1fs' %
          (len(good), rate, evidence['coverage']['events'],
           evidence['coverage']['answers_compared_with_the_oracle'],
           len(nontrivial), len(inter), len(states),
           evidence['coverage']['simulated_seconds'], wall))
    print('faults', json.dumps(evidence['coverage']['faults_fired']))
    print('probes', json.dumps(evidence['coverage']['probes_hit']))
    print('exit', code)
    return code


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
