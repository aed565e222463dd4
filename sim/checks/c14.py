"""C14: timing statistics account exactly for the time spent in evaluations."""
import copy

import numpy as np

from ..kernel import Violation

opt = None
ID = 'C14'
RUNS = {'quick': 2400, 'thorough': 60000}
SHRINK_LISTS = ('runs',)
RULE = ('a run is one to four optimisations (least squares, scalar, annealing) on a virtual '
        'clock on which every cost function, gradient and driver step takes a seeded time, '
        'with failing evaluations and aborts; the statistics must equal these times; '
        'non-trivial: at least two timed evaluations')
STATE_MEASURE = ('distinct (minimiser, method, gradient use, abort, failure, number of '
                 'evaluations, ordinal of the run, weights) situations')
PROBES = ('aborted', 'ended-normally', 'run-failed', 'no-statistics', 'rechecked', 'analysed',
          'analysed-several', 'gradient-times', 'compared-without-statistics', 'method:sa',
          'stats-after-failure', 'driver:real', 'driver:fake', 'direct-evaluation')
FAULTS = ('cost', 'cost-late', 'grad', 'grad-late', 'driver-stall')
ASSUMPTIONS = ['the clocks are not stepped during these runs; durations are multiples of '
               '1/1024 s, so sums are exact']


def setup():
    global opt, REAL, STUB, analyser, data_container
    from .. import opt as o
    from qopt import analyser, data_container
    opt = o
    REAL, STUB = o.REAL + ['Analyser, DataContainer, simanneal'], o.STUB


def generate(R, tier):
    s = opt.gen(R, tier, 'C14', runs=(1, 4), nsteps=8 if tier == 'quick' else 16)
    s['twice'] = R.chance(.35)
    for r in s['runs']:
        if R.chance(.2):
            r['direct'] = R.int(1, 3)
    return s


def execute(s, ctx):
    a = optimise(s, ctx, None)
    if s['twice']:
        import random
        random.seed(12345)
        np.random.seed(12345)
        ctx.new_clock()
        other = [not x['stats'] for x in s['sims']]
        b = optimise(s, ctx, other)
        ctx.probe('compared-without-statistics')
        for k, (x, y) in enumerate(zip(a, b)):
            for f in x:
                ctx.check(opt.same(x[f], y[f]), 'statistics-change-result:' + f,
                          lambda: 'run %d: %s is %r, and %r with statistics %s'
                          % (k, f, x[f], y[f], other))
    opt.close()


def optimise(s, ctx, flip):
    t = s
    if flip is not None:
        t = copy.deepcopy(s)
        for x, f in zip(t['sims'], flip):
            x['stats'] = f
    lab = opt.Lab(t, ctx)
    out, kept = [], []
    for i, r in enumerate(t['runs']):
        sim = lab.sims[t['opts'][r['opt']]['sim']]
        m = t['sims'][t['opts'][r['opt']]['sim']]
        for _ in range(r.get('direct', 0)):
            ctx.probe('direct-evaluation')
            sim.wrapped_cost_functions(np.full((m['nt'], m['nc']), .5))
        rr = lab.run(i, r)
        stats = judge(rr, ctx)
        if stats is not None and rr.result is not None:
            kept.append((stats, rr))
        out.append(summary(rr))
    for stats, rr in kept:
        ctx.probe('rechecked')
        compare(stats, rr, ctx, 'later:')
    analyse(kept, ctx)
    return out


def summary(rr):
    d = {'exception': None if rr.exc is None else np.array(type(rr.exc).__name__),
         'n': np.array([len(rr.costs), len(rr.grads)])}
    if rr.result is not None:
        for k in ('final_cost', 'final_parameters', 'final_grad_norm', 'num_iter',
                  'status', 'init_parameters'):
            v = getattr(rr.result, k)
            d[k] = None if v is None else np.array(v)
        if rr.o.get('save') and rr.o['o'] != 'sa':
            d['record'] = np.array(rr.result.optim_summary.costs)
    return d


def judge(rr, ctx):
    has = rr.s['stats']
    if not has:
        ctx.probe('no-statistics')
        ctx.check(rr.sim.stats is None, 'statistics-although-disabled', '')
        if rr.result is not None:
            ctx.check(rr.result.optimization_stats is None, 'statistics-although-disabled', '')
        return None
    stats = rr.sim.stats
    if rr.result is not None:
        stats = rr.result.optimization_stats
    else:
        ctx.probe('stats-after-failure')
    ctx.check(stats is not None, 'no-statistics-object', '')
    compare(stats, rr, ctx, '')
    return stats


def compare(stats, rr, ctx, when):
    want = [[d for _, _, d in sorted(e['parts'], key=lambda p: p[0])] for e in rr.costs]
    got = [list(map(float, x)) for x in stats.cost_func_eval_times]
    ctx.check(got == want, when + 'cost-times', lambda: 'recorded %r, spent %r' % (got, want))
    want = [[d for _, _, d in sorted(e['parts'], key=lambda p: p[0])] for e in rr.grads]
    got = [list(map(float, x)) for x in stats.grad_func_eval_times]
    if got:
        ctx.probe('gradient-times')
    ctx.check(got == want, when + 'gradient-times',
              lambda: 'recorded %r, spent %r' % (got, want))
    if len(rr.costs) > 1:
        ctx.nontrivial = True
    ctx.check(list(stats.indices) == [l for c in rr.sim.cost_funcs for l in c.label],
              when + 'indices', repr(stats.indices))
    clocks = [k for k in range(3) if stats.start_t_opt == rr.start[k]]
    ctx.check(clocks, when + 'start', 'recorded %r, clocks %r' % (stats.start_t_opt, rr.start))
    if rr.result is None:
        return
    # the end lies between the last evaluation of the search and the return
    last = 0.
    searched = [e for e in rr.costs]
    if searched:
        e = searched[-1]
        last = e['mono'] - rr.start[0] + sum(d for _, _, d in e['parts'])
    total = rr.end[0] - rr.start[0]
    ctx.check(stats.end_t_opt is not None, when + 'no-end', '')
    got = stats.end_t_opt - stats.start_t_opt
    ctx.check(last <= got <= total, when + 'end',
              lambda: 'the run took %r (last evaluation ended after %r), recorded %r'
              % (total, last, got))


def analyse(kept, ctx):
    kept = [(st, rr) for st, rr in kept if rr.result is not None and
            rr.s is kept[0][1].s]
    if not kept:
        return
    data = data_container.DataContainer(storage_path='nowhere')
    for st, rr in kept:
        data.append_optim_result(rr.result)
    a = analyser.Analyser(data)
    ctx.probe('analysed')
    if len(kept) > 1:
        ctx.probe('analysed-several')
    tot = {'cost': 0., 'grad': 0.}
    for n, (st, rr) in enumerate(kept):
        for key, entries, f in (('cost', rr.costs, a.integral_cost_fkt_times),
                                ('grad', rr.grads, a.integral_grad_fkt_times)):
            d = np.array([[d for _, _, d in sorted(e['parts'], key=lambda p: p[0])]
                          for e in entries])
            want = np.sum(d, axis=0)
            tot[key] += float(np.sum(want))
            ctx.check(np.allclose(f(n), want, rtol=1e-12, atol=1e-12), 'sum-' + key,
                      lambda: 'run %d: %r, spent %r' % (n, f(n), want))
    times = [st.end_t_opt - st.start_t_opt for st, _ in kept]
    ctx.check(np.allclose(a.opt_times(), times, rtol=1e-12), 'run-times',
              lambda: '%r, recorded %r' % (a.opt_times(), times))
    for key, f, share in (('cost', a.total_cost_fkt_time, a.time_share_cost_fkt),
                          ('grad', a.total_grad_fkt_time, a.time_share_grad_fkt)):
        ctx.check(np.isclose(f(), tot[key], rtol=1e-12, atol=1e-12), 'total-' + key,
                  lambda: '%r, spent %r' % (f(), tot[key]))
        if sum(times) > 0:
            ctx.check(np.isclose(share(), tot[key] / sum(times), rtol=1e-9), 'share-' + key,
                      lambda: '%r, spent %r of %r' % (share(), tot[key], sum(times)))


def simplify(s):
    if s.get('twice'):
        yield dict(s, twice=False)
    yield from opt.simplify(s)
