"""C08: the reported optimum was really evaluated, and is the best one on abort."""
import numpy as np

from ..kernel import Violation

opt = None
ID = 'C08'
RUNS = {'quick': 2600, 'thorough': 60000}
SHRINK_LISTS = ('runs',)
RULE = ('a run is one to four optimisations on a virtual clock, ended by their time limit '
        'at a seeded evaluation or by the driver, with NaN and infinite costs, weights, '
        'failures and drivers that overwrite their arrays; the report is compared with an '
        'independent log of evaluations and with the captured outcome of the driver; '
        'non-trivial: an aborted optimisation with at least two completed evaluations or a '
        'normal end')
STATE_MEASURE = ('distinct (minimiser, method, gradient use, abort, failure, number of '
                 'evaluations, ordinal of the run, weights) situations')
PROBES = ('aborted', 'ended-normally', 'nothing-evaluated', 'nothing-finite', 'best-not-last',
          'best-not-first', 'nan-costs', 'abort-gradient', 'abort-no-gradient', 'weighted-abort',
          'weights-change-best', 'run-failed', 'after-failure', 'pulse-reused', 'driver:real', 'driver:fake')
FAULTS = ('driver-stall', 'cost', 'grad')
ASSUMPTIONS = ['the gradient norm reported on an abort is that of the weighted cost '
               'gradients (least squares: of the jacobian, or of the gradient of the sum of '
               'squares)']


def setup():
    global opt, REAL, STUB
    from .. import opt as o
    opt = o
    REAL, STUB = o.REAL, o.STUB


def generate(R, tier):
    s = opt.gen(R, tier, 'C08', runs=(1, 4), nsteps=10 if tier == 'quick' else 16)
    s['iso'] = R.chance(.4)
    for r in s['runs']:
        r['reuse'] = R.chance(.3)
    return s


def execute(s, ctx):
    lab = opt.Lab(s, ctx)
    failed = False
    kept = []
    for i, r in enumerate(s['runs']):
        rr = lab.run(i, r)
        if rr.result is not None:
            if failed:
                ctx.probe('after-failure')
            judge(rr, ctx, lab)
            kept.append((rr, fields(rr.result)))
            if r.get('reuse'):
                # the caller goes on to use the array of the initial pulse
                if isinstance(rr.pulse, np.ndarray) and rr.pulse.flags.writeable:
                    rr.pulse[...] = 77.
                    ctx.probe('pulse-reused')
        else:
            failed = True
    for rr, old in kept:
        new = fields(rr.result)
        for k in old:
            ctx.check(opt.same(old[k], new[k]), 'report-changed:' + k,
                      'the reported %s was %r, and is %r after later runs and the reuse of '
                      'the initial pulse'
                      % (k, old[k], new[k]))
    opt.close()


def fields(r):
    return {k: None if getattr(r, k) is None else np.array(getattr(r, k))
            for k in ('final_cost', 'final_parameters', 'init_parameters',
                      'final_grad_norm', 'num_iter', 'status')}


def judge(rr, ctx, lab):
    r, o, s = rr.result, rr.o, rr.s
    shape = (s['nt'], s['nc'])
    ctx.check(opt.same(r.init_parameters, rr.init), 'initial-parameters',
              lambda: 'reported %r, given %r' % (r.init_parameters, rr.init))
    ctx.check(opt.same(rr.pulse, rr.init), 'initial-pulse-modified', '')
    ctx.check(list(r.indices) == [l for c in rr.sim.cost_funcs for l in c.label],
              'indices', repr(r.indices))
    ctx.check((r.optimizer is rr.opt) if o.get('store') else (r.optimizer is None),
              'stored-optimizer', repr(r.optimizer))
    w = o.get('weights')
    w = None if w is None else np.array([w[i % len(w)] for i in range(opt.n_out(s))], float)
    if rr.aborted:
        abort(rr, ctx, lab, w)
        return
    d = rr.driver.result
    ctx.check(d is not None, 'end-without-driver', 'no abort, but the driver did not return')
    ctx.nontrivial = True
    ctx.check(opt.same(r.final_parameters, np.asarray(d['x']).reshape(shape[::-1]).T),
              'final-parameters', lambda: 'reported %r, the driver returned %r'
              % (r.final_parameters, d['x']))
    ctx.check(opt.same(r.final_cost, d['fun']), 'final-cost',
              lambda: 'reported %r, the driver returned %r' % (r.final_cost, d['fun']))
    ctx.check(r.num_iter == d['nfev'], 'evaluation-count',
              'reported %r, the driver counted %r' % (r.num_iter, d['nfev']))
    ctx.check(r.status == d['status'], 'status', '%r, driver %r' % (r.status, d['status']))
    ctx.check(str(r.termination_reason) == str(d['message']), 'reason',
              '%r, driver %r' % (r.termination_reason, d['message']))
    g = None
    if o['o'] == 'ls':
        g = d['grad']
    elif o['method'] == 'L-BFGS-B':
        g = d['jac']
    if g is not None:
        n = np.linalg.norm(g)
        ctx.check(r.final_grad_norm is not None and
                  (np.isclose(r.final_grad_norm, n, rtol=1e-9, atol=1e-12) or
                   (not np.isfinite(n) and not np.isfinite(r.final_grad_norm))),
                  'gradient-norm', lambda: 'reported %r, the driver returned %r'
                  % (r.final_grad_norm, g))
    # real methods must really have been there
    if (rr.driver.spec['d'] == 'real' and np.isfinite(np.asarray(d['x'])).all() and
            o['method'] in ('trf', 'dogbox', 'lm', 'L-BFGS-B', 'Nelder-Mead') and
            all(np.isfinite(e['value']).all() for e in rr.costs)):
        x = np.asarray(d['x']).reshape(shape[::-1]).T
        ctx.check(any(np.array_equal(e['y'], x) for e in rr.costs),
                  'reported-point-never-evaluated', lambda: repr(x))


def abort(rr, ctx, lab, w):
    r, o = rr.result, rr.o
    n = len(rr.costs)
    ctx.check(r.num_iter == n, 'abort-count',
              '%r evaluations reported, %d completed' % (r.num_iter, n))
    values = [opt.expected_costs(e) for e in rr.costs]
    norms = [np.linalg.norm(v) for v in values]
    if any(np.isnan(x) for x in norms):
        ctx.probe('nan-costs')
    finite = [i for i in range(n) if np.isfinite(norms[i])]
    if not finite:
        ctx.probe('nothing-finite' if n else 'nothing-evaluated')
        ctx.check(r.final_parameters is None, 'abort-parameters',
                  lambda: 'nothing finite was evaluated, reported %r' % (r.final_parameters,))
        return
    if n > 1:
        ctx.nontrivial = True
    best = min(norms[i] for i in finite)
    match = [i for i in finite if norms[i] <= best * (1 + 1e-12) and
             opt.same(r.final_parameters, rr.costs[i]['y'])]
    ctx.check(match, 'abort-parameters', lambda: 'reported %r, the best of %d evaluations '
              'are %r' % (r.final_parameters, n, rr.costs[norms.index(best)]['y']))
    ctx.check(any(opt.same(r.final_cost, values[i]) for i in match), 'abort-cost',
              lambda: 'reported %r, the cost functions returned %r there'
              % (r.final_cost, values[match[0]]))
    i = match[0]
    if i != n - 1:
        ctx.probe('best-not-last')
    if i != 0:
        ctx.probe('best-not-first')
    if w is not None:
        ctx.probe('weighted-abort')
        wn = [np.linalg.norm(values[j] * w) for j in finite]
        if finite[int(np.argmin(wn))] != i:
            ctx.probe('weights-change-best')
    y = rr.costs[i]['y']
    uses = (o['usejac'] and (o['o'] == 'ls' or o['method'] == 'L-BFGS-B'))
    # gradients that were asked for before the limit was met
    asked = [e for e in rr.grads if e['mono'] <= rr.costs[-1]['mono'] or
             not np.array_equal(e['y'], y)]
    if not uses:
        ctx.probe('abort-no-gradient')
        return
    if not asked:
        return
    if rr.s.get('numjac'):
        return
    g = lab.reference_gradient(rr, y)                   # [t, k, c]
    if w is not None:
        g = g * w[None, :, None]
    if o['o'] == 'ls':
        f = values[i] if w is None else values[i] * w
        ok = [np.linalg.norm(g), np.linalg.norm(np.einsum('tkc,k->tc', g, f))]
    else:
        ok = [np.linalg.norm(g.sum(axis=1))]
    ctx.probe('abort-gradient')
    ctx.check(r.final_grad_norm is not None and
              any(np.isclose(r.final_grad_norm, x, rtol=1e-9, atol=1e-12) for x in ok),
              'abort-gradient-norm', lambda: 'reported %r, at the best parameters it is %r'
              % (r.final_grad_norm, ok))


def simplify(s):
    yield from opt.simplify(s)
