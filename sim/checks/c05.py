"""C05: parallel multi-start optimisation equals independent sequential runs."""
import copy
import json
import multiprocessing.pool

import numpy as np

from .. import models, pool, seams
from ..kernel import Violation, short_tb
from ..models import Model, par

opt = None
ID = 'C05'
RUNS = {'quick': 1600, 'thorough': 50000}
SHRINK_LISTS = ('pulses', 'schedule', 'faults')
RULE = ('a run is one parallel multi-start optimisation over simulated worker processes '
        'under a seeded schedule, with worker failures, failing cost functions and time '
        'limits, compared with separate sequential runs; non-trivial: at least two pulses '
        'were optimised in parallel and compared')
STATE_MEASURE = ('distinct (minimiser, method, pulses, workers, outcome, failure kind, '
                 'history) situations; interleavings count distinct task/worker orders')
PROBES = ('several-pulses', 'no-pulses', 'user-failure', 'worker-failure', 'aborted',
          'all-cpus', 'used-before', 'same-pulse-twice', 'one-worker', 'more-tasks-than-workers',
          'physical-model', 'monte-carlo', 'stacked-pulses', 'chunked', 'repeated')
FAULTS = ('pool-start', 'pool-task', 'pool-encode', 'pool-interrupt')
USER = ('ValueError', 'RuntimeError', 'MemoryError', 'OSError', 'UserBug',
        'ZeroDivisionError', 'FloatingPointError', 'LinAlgError', 'KeyError', 'IndexError',
        'ArithmeticError', 'TimeoutError', 'AttributeError',
        'AssertionError', 'NotImplementedError')
ASSUMPTIONS = ['the simulations do not draw from a global random source (forked workers '
               'inherit its state)',
               'a worker process fails by an exception; a worker that is killed makes '
               'multiprocessing.Pool itself hang and is outside the model']


def setup():
    global opt, REAL, STUB, parallel, simulator, optimize
    from .. import opt as o
    from qopt import parallel, simulator, optimize
    models.ntg_classes()
    opt = o
    REAL = o.REAL + ['qopt.parallel', 'pickle of optimizers, pulses and results']
    STUB = o.STUB + ['worker processes (SimPool, one process, seeded schedule)',
                     'number of CPUs']


def generate(R, tier):
    seeds = [R.seed32() for _ in range(3)]
    s = {'cpus': R.int(1, 8), 'schedule': [R.int(0, 11) for _ in range(R.int(1, 10))],
         'faults': [], 'processes': R.weighted((2, 1), (3, 2), (2, 3), (1, 5), (2, None))}
    n = R.weighted((.5, 0), (1, 1), (3, 2), (3, 3), (2, 5), (1, R.int(6, 14)),
                   (.15, R.int(20, 45)))
    s['pulses'] = [models.gen_par(R, seeds) for _ in range(n)]
    s['stack'] = R.chance(.3)
    if R.chance(.75):
        sim = opt.gen_sim(R, 'C05')
        # seldom a cost function refuses some pulses
        if R.chance(.2):
            sim['costs'][R.int(0, len(sim['costs']) - 1)].update(
                raise_above=R.pick(.2, .8, 1.2), raise_kind=R.pick(*USER))
        o = opt.gen_opt(R, 'C05', 1, [sim])
        s.update(kind='probe', sims=[sim], opts=[o],
                 driver=opt.gen_driver(R, 'C05', 6, seeds, True))
        s['driver']['x'] = 'copy'
        s['driver']['scribble'] = False
    else:
        m = (models.gen_model(R, max_nt=3) if R.chance(.6) else
             models.gen_mc_model(R, gens=('scripted', 'qs-det')))
        if m['kind'] == 'mc' or m['kind'] == 'mcc':
            m['noise']['given'] = False
            if m['noise']['gen'] == 'scripted' and m['noise'].get('ask'):
                m['noise']['ask'] = False
        o = {'o': R.pick('ls', 'sc'), 'save': R.chance(.7), 'store': R.chance(.2),
             'usejac': False}
        o['method'] = 'trf' if o['o'] == 'ls' else 'L-BFGS-B'
        s.update(kind='model', model=m, opts=[o], driver=opt.gen_driver(
            R, 'C05', 4, seeds, False))
        s['driver'].update(x='copy', scribble=False, wait=None)
    if R.chance(.35):
        s['before'] = models.gen_par(R, seeds)
    s['again'] = R.chance(.25)
    for _ in range(R.weighted((3, 0), (2, 1))):
        s['faults'].append({'kind': R.pick('start', 'task', 'task', 'encode', 'interrupt'),
                            'at': R.pick(0, 0, 1, 2, 3),
                            'exc': R.pick(*sorted(pool.EXC))})
    return s


class Quiet:
    """The part of a laboratory that a driver needs."""

    def __init__(self, clock, ctx):
        self.clock, self.ctx = clock, ctx

    def driver_wait(self, units):
        if units:
            self.clock.advance(units * opt.UNIT)


def build(s):
    if s['kind'] == 'probe':
        sim = opt.build_sim(s['sims'][0], recording=False)
        return (opt.build_opt(s['opts'][0], s['sims'][0], sim),
                (s['sims'][0]['nt'], s['sims'][0]['nc']))
    m = Model(s['model'])
    extra = None
    if s['model']['kind'] in ('mc', 'mcc'):
        extra = {'noise_trace_generator': models.build_ntg(
            s['model']['noise'], len(m.noise_opers()), m.num_x())}
    solver = m.solver(extra)
    sim = simulator.Simulator(solvers=[solver],
                              cost_funcs=[m.cost(c, solver) for c in s['model']['costs']])
    o = s['opts'][0]
    cls = (optimize.LeastSquaresOptimizer if o['o'] == 'ls' else
           optimize.ScalarMinimizingOptimizer)
    return cls(system_simulator=sim, save_intermediary_steps=o['save'],
               use_jacobian_function=False, store_optimizer=o['store'],
               termination_cond={'max_wall_time': 1e9}), m.shape


def driver(s, ctx):
    lab = Quiet(ctx.clock, ctx)

    def call(kind, real, args, kwargs):
        return opt.Driver(s['driver'], lab, None)(kind, real, args, kwargs)
    return call


def outcome(f, *args):
    try:
        return f(*args), None
    except Violation:
        raise
    except BaseException as e:
        return None, e


def fields(r):
    st = r.optimization_stats
    return {'final_costs': r.final_cost, 'init_parameters': r.init_parameters,
            'final_parameters': r.final_parameters, 'status': r.status,
            'costs': [] if r.optim_summary is None else r.optim_summary.costs,
            'parameters': [] if r.optim_summary is None else r.optim_summary.parameters,
            'stats': None if st is None else
            [st.cost_func_eval_times, st.grad_func_eval_times,
             st.end_t_opt - st.start_t_opt, list(st.indices)],
            'indices': list(r.indices)}


def attrs(o):
    """Observable state of an optimizer."""
    sim = o.system_simulator
    d = {'termination': json.dumps({k: repr(v) for k, v in sorted(
            o.termination_conditions.items())}),
         'weights': None if o.cost_func_weights is None else np.array(o.cost_func_weights),
         'save': o.save_intermediary_steps, 'store': o.store_optimizer,
         'method': o.method, 'usejac': o.use_jacobian_function,
         'stats': None if sim.stats is None else
         [copy.deepcopy(sim.stats.cost_func_eval_times),
          copy.deepcopy(sim.stats.grad_func_eval_times),
          sim.stats.start_t_opt, sim.stats.end_t_opt],
         'record': None if o.optim_iter_summary is None else
         [copy.deepcopy(o.optim_iter_summary.costs),
          copy.deepcopy(o.optim_iter_summary.parameters)],
         'counters': [[getattr(c, 'n_cost', 0), getattr(c, 'n_grad', 0)]
                      for c in sim.cost_funcs],
         'n': [len(sim.solvers), len(sim.cost_funcs)]}
    return d


def equal(a, b, tol):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in 'OU' or b.dtype.kind in 'OU':
        return equal(a.tolist(), b.tolist(), tol) if a.dtype.kind != 'U' else \
            np.array_equal(a, b)
    return models.diff(a, b) is None if tol else opt.same(a, b)


def execute(s, ctx):
    seams.WORLD.driver = driver(s, ctx)
    optimizer, shape = build(s)
    if s.get('before'):
        outcome(optimizer.run_optimization, par(s['before'], shape))
        ctx.probe('used-before')
    rounds = 2 if s.get('again') else 1
    for k in range(rounds):
        one(s, ctx, optimizer, shape, k)
    opt.close()


def one(s, ctx, optimizer, shape, k):
    tol = 1e-9          # identical arithmetic, but copies may differ in memory layout
    pulses = [par(p, shape) for p in s['pulses']]
    n = len(pulses)
    if k:
        ctx.probe('repeated')
    clean = copy.deepcopy(optimizer)
    want, failure = [], None
    for p in pulses:
        r, e = outcome(copy.deepcopy(clean).run_optimization, p.copy())
        if e is not None:
            failure = failure or e
        want.append(None if e is not None else fields(r))
    before = attrs(optimizer)
    given = np.array(pulses) if s.get('stack') and n else pulses
    originals = [np.array(p) for p in pulses]
    pw = seams.WORLD.pools = pool.PoolWorld(
        ctx, s['schedule'], s['faults'] if k == 0 else (), s['cpus'])
    ctx.ev('parallel', n, s['processes'])
    data, err = outcome(lambda: parallel.run_optimization_parallel(
        optimizer, given, processes=s['processes']))
    seams.WORLD.pools = None
    hit = [f for f in pw.faults if f.get('done')]
    ctx.state(s['opts'][0]['o'], s['opts'][0].get('method'), n, s['processes'],
              type(err).__name__, [f['kind'] for f in hit], bool(s.get('before')), k)
    left = pw.leaked()
    ctx.check(not left, 'worker-left-behind',
              '%d pools were neither joined nor terminated' % len(left))
    for a, b in zip(given, originals):
        ctx.check(opt.same(a, b), 'pulse-modified', '')
    ctx.check(len(given) == n, 'pulse-list-modified', '')
    after = attrs(optimizer)
    for key in before:
        ctx.check(equal(before[key], after[key], 0), 'optimizer-modified:' + key,
                  lambda: '%r -> %r' % (before[key], after[key]))
    if hit or failure is not None:
        ctx.probe('worker-failure' if hit else 'user-failure')
        ctx.check(err is not None, 'failure-swallowed',
                  lambda: 'injected %r, user %r; a collection of %r entries was returned'
                  % (hit, failure, None if data is None else len(data)))
        ok = [type(failure)] if failure is not None else []
        for f in hit:
            ok.append({'start': OSError, 'interrupt': KeyboardInterrupt,
                       'encode': multiprocessing.pool.MaybeEncodingError}.get(
                           f['kind']) or pool.EXC[f['exc']])
        ctx.check(any(isinstance(x, t) for t in ok for x in chain(err)),
                  'failure-misreported', lambda: 'expected one of %r, caller got %r'
                  % (ok, err))
    else:
        if err is not None:
            raise Violation('unexpected-exception:' + type(err).__name__, short_tb(err))
        ctx.check(len(data) == n, 'entry-count', '%d entries for %d pulses' % (len(data), n))
        if n == 0:
            ctx.probe('no-pulses')
        for i, w in enumerate(want):
            for key in ('final_costs', 'init_parameters', 'final_parameters', 'status',
                        'costs', 'parameters'):
                g = getattr(data, key)
                ctx.check(len(g) == n, 'entry-count:' + key, '')
                ctx.check(equal(g[i], w[key], tol), 'differs:' + key,
                          lambda: 'pulse %d: %r, sequentially %r' % (i, g[i], w[key]))
            st = data.optimization_statistics[i]
            g = None if st is None else [st.cost_func_eval_times, st.grad_func_eval_times,
                                         st.end_t_opt - st.start_t_opt, list(st.indices)]
            if w['stats'] is None or g is None:
                ctx.check(w['stats'] is None and g is None, 'differs:statistics', '')
            else:
                for a, b, what in zip(g, w['stats'], ('cost', 'grad', 'duration', 'indices')):
                    ctx.check(equal(a, b, 0), 'differs:statistics-' + what,
                              lambda: 'pulse %d: %r, sequentially %r' % (i, a, b))
            ctx.check(list(data.indices) == w['indices'], 'differs:indices', '')
            if w['status'] == 5:
                ctx.probe('aborted')
        if n > 1:
            ctx.nontrivial = True
            ctx.probe('several-pulses')
    # afterwards the optimizer behaves as before
    if n:
        r, e = outcome(copy.deepcopy(optimizer).run_optimization, pulses[0].copy())
        if want[0] is None:
            ctx.check(e is not None, 'optimizer-changed', '')
        else:
            ctx.check(e is None, 'optimizer-changed', repr(e))
            got = fields(r)
            for key in ('final_costs', 'final_parameters', 'costs', 'status'):
                ctx.check(equal(got[key], want[0][key], tol), 'optimizer-changed:' + key,
                          lambda: '%r, before %r' % (got[key], want[0][key]))
    probes(s, ctx, n, pw)


def chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def probes(s, ctx, n, pw):
    if s['processes'] is None:
        ctx.probe('all-cpus')
    if s['processes'] == 1:
        ctx.probe('one-worker')
    if s['processes'] and n > s['processes']:
        ctx.probe('more-tasks-than-workers')
    if n and pw.n_tasks < n and not any(f.get('done') for f in pw.faults):
        ctx.probe('chunked')
    if len({json.dumps(p) for p in s['pulses']}) < n:
        ctx.probe('same-pulse-twice')
    if s.get('stack'):
        ctx.probe('stacked-pulses')
    if s['kind'] == 'model':
        ctx.probe('physical-model')
        if s['model']['kind'] in ('mc', 'mcc'):
            ctx.probe('monte-carlo')


def simplify(s):
    for k in ('before', 'again', 'stack'):
        if s.get(k):
            yield dict(s, **{k: None})
    if s['processes'] not in (1, 2):
        yield dict(s, processes=2)
    d = s['driver']
    if d['d'] == 'fake' and len(d['steps']) > 1:
        for k in range(len(d['steps'])):
            yield dict(s, driver=dict(d, steps=d['steps'][:k] + d['steps'][k + 1:]))
    if d.get('wait'):
        yield dict(s, driver=dict(d, wait=None))
    if s['kind'] == 'probe':
        o, m = s['opts'][0], s['sims'][0]
        for k in ('weights', 'bounds', 'store'):
            if o.get(k):
                yield dict(s, opts=[dict(o, **{k: None})])
        if len(m['costs']) > 1:
            for k in range(len(m['costs'])):
                yield dict(s, sims=[dict(m, costs=m['costs'][:k] + m['costs'][k + 1:])])
        if m.get('tf'):
            yield dict(s, sims=[dict(m, tf=None)])
