"""C16: the same seed reproduces the same results, in any process at any time.

A program (sampling, simulation, optimisation, annealing) runs in several
environments that differ in everything but the state of the random sources:
hash randomisation, process, clocks (origin, speed, jumps), and what was
computed, or failed, before.
"""
import atexit
import copy
import gc
import os
import random
import sys

import numpy as np

from .. import faults, models, seams, server

from ..kernel import forked
from ..models import par, plain
from . import c11

opt = None
ID = 'C16'
RUNS = {'quick': 1300, 'thorough': 40000}
SHRINK_LISTS = ('envs',)
RULE = ('a run is one program (a seeded list of operations on a simulation, an optimizer, '
        'an annealer, a noise generator or a transfer function) repeated from the same '
        'state of the random sources in two to four environments with different hash '
        'seeds, processes, clocks and preceding (also failed) computations; non-trivial: '
        'the program drew random numbers or the hash seed or the history differed')
STATE_MEASURE = ('distinct (kind of program, operations, kinds of differences of the '
                 'environment) situations')
REAL, STUB = [], []
PROBES = ('hash-seed', 'other-process', 'same-process', 'history', 'failed-history',
          'own-history', 'clock', 'ticking-clock', 'draws', 'sampling', 'simulation',
          'optimisation', 'annealing', 'physical-optimisation', 'several-identifiers',
          'monte-carlo')
FAULTS = ('wall-clock-jump', 'slow-clock-reading')
HASH_SEEDS = (1, 2, 77, 4242)
ASSUMPTIONS = [
    'both global random sources (numpy and random) are set to the same state before the '
    'program starts',
    'no wall time limit is reached; measured times are not compared',
    'worker processes are not used (forked workers inherit the random state; see C05)',
    'results are compared with a relative tolerance of 1e-9']
SERVERS = {}


def setup():
    global opt, REAL, STUB
    c11.setup()
    opt = c11.opt
    c11.Actor.reseed = False
    REAL = c11.REAL[:1] + ['scipy minimisers, simanneal', 'interpreter processes with '
                           'different hash seeds', 'numpy and Python random sources']
    STUB = ["clocks (virtual, different in every environment)", "the user's callbacks"]
    if sys.argv[0].endswith('server.py'):
        return
    for h in HASH_SEEDS:
        name = 'qopt-sim-%d-%d' % (os.getpid(), h)
        SERVERS[h] = name, server.start(name, ID, h)
    owner = os.getpid()

    def stop():
        if os.getpid() == owner:
            for _, p in SERVERS.values():
                p.stdin.close()
            for _, p in SERVERS.values():
                p.wait()
    atexit.register(stop)


# ------------------------------------------------------------- generation
# (the number of iterations of the other methods is not limited)
METHODS = {'ls': c11.METHODS['ls'], 'sc': ((5, 'L-BFGS-B'), (2, 'Nelder-Mead')),
           'sa': ((1, 'sa'),)}


def gen_program(R):
    k = R.weighted((4, 'solver'), (3, 'phys'), (1.5, 'opt'), (2, 'ntg'), (.3, 'tf'))
    seeds = [R.seed32() for _ in range(3)]
    if k == 'solver':
        base = models.gen_mc_model(R) if R.chance(.6) else models.gen_model(R)
        if base['kind'] == 'schro' and not base.get('ff') and R.chance(.5):
            base['ff'] = {'s': R.seed32() % 10 ** 6, 'form': R.pick('list', 'call'),
                          'deriv': R.chance(.7)}
            base['costs'].append({'t': 'ff', 'auto': False})
        if base.get('ff'):
            base['ff'].update(nn=R.int(2, 4), ids=R.pick(None, 'rev', 'odd'))
        a = c11.gen_solver_actor(R, base, seeds)
        if a['m'].get('ff'):
            a['m']['ff'].update(nn=R.int(2, 4), ids=R.pick(None, 'rev', 'odd'))
    elif k == 'opt':
        sim = opt.gen_sim(R, 'C05')
        sa = {'s': R.seed32(), 'frac': R.chance(.3), 'bform': R.pick('list', 'tuple'),
              'tmax': 1., 'tmin': 1e-2, 'updates': R.pick(0, 2)}
        a = c11.gen_opt_actor(R, sim, sa, seeds)
        for o in a['opts']:
            o['maxwall'] = None
    elif k == 'phys':
        m = models.gen_mc_model(R) if R.chance(.6) else models.gen_model(R)
        if m.get('ff'):
            m['ff'].update(nn=R.int(2, 4), ids=R.pick(None, 'rev', 'odd'))
        if not m.get('tf') or models.tf_uses(m['tf'], 'over'):
            m['tf'] = None
        o = R.weighted((3, 'ls'), (3, 'sc'), (3, 'sa'))
        a = {'k': 'phys', 'm': m, 'o': o, 'method': R.weighted(
            *METHODS[o]), 'maxiter': R.int(1, 4),
            'ops': [{'o': 'run', 'p': models.gen_par(R, seeds)} for _ in range(R.int(1, 2))]}
    elif k == 'ntg':
        n = {'no': R.int(1, 3), 'traces': R.int(1, 4), 's': R.seed32() % 10 ** 6,
             'gen': R.pick('qs-det', 'qs-mc', 'qs-mc', 'colored', 'colored', 'scripted'),
             'redraw': R.chance(.6), 'given': False, 'ext': R.int(1, 3)}
        a = {'k': 'ntg', 'n': n, 'x': R.int(1, 5), 'ops': [
            {'o': R.weighted((5, 'samples'), (1, 'sizes'), (1, 'build'))}
            for _ in range(R.int(1, 5))]}
    else:
        n = R.int(1, 3)
        a = {'k': 'tf', 'n': n, 'tf': models.gen_tf(R, n, custom_nt=3), 'ops': [
            {'o': R.weighted((2, 'times'), (4, 'call'), (2, 'grad')),
             't': {'s': R.pick(*seeds) % 100}, 'p': models.gen_par(R, seeds)}
            for _ in range(R.int(1, 4))]}
    for op in a['ops']:
        op.pop('f', None)
        op.get('r', {}).pop('f', None)
    return a


def generate(R, tier):
    s = {'program': gen_program(R), 'seed': R.seed32(), 'envs': []}
    for _ in range(R.int(1, 3 if tier == 'quick' else 5)):
        e = {'hash': R.weighted((2, 0), (5, R.pick(*HASH_SEEDS))),
             'wall': R.pick(0., 1.6e9, 1.7e9 + R.int(0, 10 ** 7), 4e9, 86400 * .5),
             'mono': R.pick(0., 12.5, 1e7), 'perf': R.pick(0., 3.25, 1e6),
             'tick': R.pick(0, 0, 1e-9, 1e-6, 1e-3), 'jumps': R.pick(0, 0, 3600, -86400)}
        if R.chance(.6):
            e['before'] = [history_program(R, s) for _ in range(R.int(1, 2))]
        s['envs'].append(e)
    return s


def history_program(R, s):
    if R.chance(.3):
        return {'same': True, 'seed': R.seed32()}
    a = gen_program(R)
    for op in a['ops']:
        if R.chance(.3):
            if a['k'] == 'solver':
                op['f'] = c11.history.gen_fault(R)
            elif a['k'] == 'opt' and 'r' in op:
                op['r']['f'] = {'point': 'cost', 'nth': R.int(1, 5), 'exc': 'UserBug'}
    return {'a': a, 'seed': R.seed32()}


# ---------------------------------------------------------------- programs
class PhysActor(c11.SolverActor):
    """Optimises (or anneals) a physical model with the real minimisers."""

    def op_run(self, op):
        from qopt import optimize
        s = self.spec
        y = par(op['p'], self.m.shape)
        if s['o'] == 'sa':
            # (integer steps: the pulse starts at whole numbers)
            o = optimize.SimulatedAnnealing(
                self.sim, bounds=[np.full(self.m.shape, -4), np.full(self.m.shape, 4)],
                initial_temperature=1., final_temperature=1e-2, step_size=2,
                step_ratio=.6, steps=3 * s['maxiter'], updates=0)
            y = np.round(y)
        else:
            cls = (optimize.LeastSquaresOptimizer if s['o'] == 'ls'
                   else optimize.ScalarMinimizingOptimizer)
            o = cls(self.sim, {'max_iterations': s['maxiter'], 'max_wall_time': 1e12},
                    method=s['method'], use_jacobian_function=all(
                        self.m.has_grad(c) for c in s['m']['costs']))
        res = o.run_optimization(y)
        out = [plain(res.final_cost), plain(res.final_parameters), str(res.status),
               str(res.termination_reason), plain(res.num_iter), list(res.indices)]
        if res.optim_summary is not None:
            out += [plain(res.optim_summary.costs), plain(res.optim_summary.parameters)]
        return out


KINDS = dict(c11.KINDS, phys=PhysActor)


class TickingClock(seams.Clock):
    """Every reading takes some time; the wall clock jumps now and then."""

    def __init__(self, e):
        super().__init__(e['mono'], e['wall'], e['perf'])
        self.e, self.ticking = e, e['tick']
        self.jumped = 0

    @property
    def readings(self):
        return self._n

    @readings.setter
    def readings(self, n):
        self._n = n
        if n and self.ticking:
            self.advance(self.ticking)
        if n and self.e['jumps'] and n % 5 == 0:
            self.step_wall(self.e['jumps'])
            self.jumped += 1

    ticking = 0
    e = {'jumps': 0}


def play(a, seed, clock):
    x = KINDS[a['k']](a, 0)
    x.ctx.clock = seams.WORLD.clock = clock
    np.random.seed(seed % 2 ** 32)
    random.seed(seed)
    before = np.random.get_state()[1:3], random.getstate()
    for n, op in enumerate(x.all_ops()):
        x.run_op(n, op)
    after = np.random.get_state()[1:3], random.getstate()
    drew = repr(after) != repr(before)
    out = x.outcomes
    if a['k'] == 'opt':
        # measured times are no results
        out = [[o[0], [v for v in o[1][:-3]] if len_stats(x, o, op) else o[1]]
               if isinstance(o[1], list) else o for o, op in zip(out, x.all_ops())]
    return out, drew


def len_stats(x, o, op):
    return op['o'] == 'run' and o[0] == 'ok' and str(o[1][:1]) != "['failed']" \
        and x.spec['sims'][0].get('stats')


def environment(s, e):
    """Plays the program in one environment (in a throw-away process)."""
    models.SHARE = None
    clock = TickingClock(e)
    junk = []
    for b in e.get('before') or []:
        a = s['program'] if b.get('same') else b['a']
        play(copy.deepcopy(a), b['seed'], clock)
        junk.append([object() for _ in range(b['seed'] % 997)])
        if b['seed'] % 2:
            gc.collect()
    out, drew = play(s['program'], s['seed'], clock)
    r = c11.pack(out)
    r.update(drew=drew, jumped=clock.jumped, ticks=clock._n if clock.ticking else 0,
             total=clock.total)
    return r


def serve(data):
    """Called in a process with another hash seed."""
    import warnings
    sys.stdout = open(os.devnull, 'w')
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return environment(data['s'], data['e'])


BASE = {'hash': 0, 'wall': 1.5e9, 'mono': 100., 'perf': 7., 'tick': 0, 'jumps': 0}


def execute(s, ctx):
    a = s['program']
    want = forked(lambda: environment(s, BASE))
    reference = c11.unpack(want)
    kinds = [op['o'] for op in a['ops']]
    differs = False
    for e in s['envs']:
        ctx.ev('env', e['hash'], repr(sorted(e.items()))[:3000])
        if e['hash']:
            name = SERVERS[e['hash']][0]
            clock, seams.WORLD.clock = seams.WORLD.clock, None
            r = server.request(name, {'s': s, 'e': e}, seams.REAL['time.sleep'])
            seams.WORLD.clock = clock
            ctx.probe('hash-seed')
        else:
            r = forked(lambda: environment(s, e))
        got = c11.unpack(r)
        d = None
        if len(got) != len(reference):
            d = 'number of results'
        for n, (x, y) in enumerate(zip(got, reference)):
            d = d or c11.compare(x, y)
            ctx.check(d is None, 'not-reproducible:%s:%s' % (
                a['k'], (['build'] + kinds)[n]), lambda: 'operation %d: %s' % (n, d))
            ctx.ev('same', n, y[0], y[1] if y[0] != 'ok' else '')
        ctx.check(d is None, 'not-reproducible', d or '')
        before = e.get('before') or []
        ctx.probe('other-process' if e['hash'] else 'same-process')
        for b in before:
            ctx.probe('own-history' if b.get('same') else 'history')
            if any('f' in op or 'f' in op.get('r', {}) for op in b.get('a', {}).get('ops', ())):
                ctx.probe('failed-history')
        ctx.probe('clock')
        if e['tick']:
            ctx.probe('ticking-clock')
        for _ in range(min(r['jumped'], 10)):
            ctx.fault('wall-clock-jump')
        for _ in range(min(r['ticks'], 10)):
            ctx.fault('slow-clock-reading')
        ctx.extra_time += r['total']
        ctx.state(a['k'], a.get('o'), sorted(set(kinds)), bool(e['hash']), bool(before),
                  bool(e['tick']))
        differs |= bool(e['hash'] or before)
    if want['drew']:
        ctx.probe('draws')
    ctx.probe({'solver': 'simulation', 'phys': 'physical-optimisation', 'ntg': 'sampling',
               'tf': 'simulation', 'opt': 'optimisation'}[a['k']])
    if a.get('o') == 'sa' or any(o.get('o') == 'sa' for o in a.get('opts', ())):
        ctx.probe('annealing')
    m = a.get('m') or {}
    if m.get('ff') and m['ff']['nn'] > 1:
        ctx.probe('several-identifiers')
    if m.get('kind') in ('mc', 'mcc'):
        ctx.probe('monte-carlo')
    ctx.nontrivial = want['drew'] or differs


def simplify(s):
    a = s['program']
    for n in range(len(a['ops'])):
        yield dict(s, program=dict(a, ops=a['ops'][:n] + a['ops'][n + 1:]))
    for i, e in enumerate(s['envs']):
        for key, val in (('before', None), ('tick', 0), ('jumps', 0), ('wall', 1.5e9),
                         ('mono', 100.), ('perf', 7.), ('hash', 0)):
            if e.get(key) and e[key] != val:
                yield dict(s, envs=s['envs'][:i] + [dict(e, **{key: val})] + s['envs'][i + 1:])
        if e.get('before') and len(e['before']) > 1:
            for b in e['before']:
                yield dict(s, envs=s['envs'][:i] + [dict(e, before=[b])] + s['envs'][i + 1:])
    if a.get('m'):
        for key, val in (('tf', None), ('amp', None), ('grape', False)):
            if a['m'].get(key):
                yield dict(s, program=dict(a, m=dict(a['m'], **{key: val})))
