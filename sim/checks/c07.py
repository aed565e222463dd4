"""C07: the optimisation record is a faithful, immutable log of the evaluations."""
import numpy as np

from ..kernel import Violation

opt = None
ID = 'C07'
RUNS = {'quick': 2600, 'thorough': 60000}
SHRINK_LISTS = ('runs',)
RULE = ('a run is one to four optimisations with recording, by scripted drivers that '
        're-use, overwrite and scribble on the arrays they pass and receive or by real '
        'scipy methods, with weights, time limits and failing evaluations; the record is '
        'compared with an independent log after every optimisation and again at the end; '
        'non-trivial: at least two recorded evaluations in one optimisation')
STATE_MEASURE = ('distinct (minimiser, method, gradient use, abort, failure, number of '
                 'evaluations, ordinal of the run, weights) situations')
PROBES = ('aborted', 'ended-normally', 'run-failed', 'record-after-failure', 'rechecked',
          'gradients-recorded', 'weighted', 'driver:real', 'driver:fake', 'numeric-gradient',
          'foreign-use')
FAULTS = ('cost', 'cost-late', 'grad', 'grad-late', 'driver-stall')
ASSUMPTIONS = ['evaluations made inside a numerical gradient belong to the gradient']


def setup():
    global opt, REAL, STUB
    from .. import opt as o
    opt = o
    REAL, STUB = o.REAL, o.STUB


def generate(R, tier):
    s = opt.gen(R, tier, 'C07', runs=(1, 4), nsteps=10 if tier == 'quick' else 20)
    for r in s['runs']:
        if R.chance(.2):
            # the same simulator is used between two optimisations
            r['before'] = R.pick('cost', 'jac', 'both')
    return s


def execute(s, ctx):
    lab = opt.Lab(s, ctx)
    done = []
    for i, r in enumerate(s['runs']):
        if r.get('before'):
            sim = lab.sims[s['opts'][r['opt']]['sim']]
            m = s['sims'][s['opts'][r['opt']]['sim']]
            y = np.full((m['nt'], m['nc']), .25)
            try:
                if r['before'] in ('cost', 'both'):
                    sim.wrapped_cost_functions(y)
                if r['before'] in ('jac', 'both'):
                    sim.wrapped_jac_function(y)
            except Violation:
                raise
            ctx.probe('foreign-use')
        rr = lab.run(i, r)
        # after a failure the record is found on the optimizer
        rec = rr.result.optim_summary if rr.result is not None else rr.opt.optim_iter_summary
        if rr.result is None:
            ctx.probe('record-after-failure')
        compare(rec, rr, ctx, '')
        done.append((rec, rr))
        if len(rr.costs) > 1:
            ctx.nontrivial = True
        if rr.o.get('weights'):
            ctx.probe('weighted')
        if rr.s.get('numjac') and rr.grads:
            ctx.probe('numeric-gradient')
    for k, (rec, rr) in enumerate(done[:-1]):
        ctx.probe('rechecked')
        compare(rec, rr, ctx, 'later:')
    if done:
        compare(done[-1][0], done[-1][1], ctx, 'later:')
    opt.close()


def compare(rec, rr, ctx, when):
    ctx.check(rec is not None, 'no-record', '')
    n = len(rr.costs)
    ctx.check(len(rec.costs) == n, when + 'cost-count',
              '%d cost entries for %d completed evaluations' % (len(rec.costs), n))
    ctx.check(len(rec.parameters) == n, when + 'parameter-count',
              '%d parameter entries for %d completed evaluations' % (len(rec.parameters), n))
    ctx.check(rec.iter_num == n, when + 'iteration-count',
              'iter_num %r after %d evaluations' % (rec.iter_num, n))
    ctx.check(list(rec.indices) == [l for c in rr.sim.cost_funcs for l in c.label],
              when + 'indices', repr(rec.indices))
    for k, e in enumerate(rr.costs):
        want = opt.expected_costs(e)
        ctx.check(opt.same(rec.costs[k], want), when + 'cost-entry',
                  lambda: 'entry %d is %r, the cost functions returned %r'
                  % (k, rec.costs[k], want))
        ctx.check(opt.same(rec.parameters[k], e['y']), when + 'parameter-entry',
                  lambda: 'entry %d is %r, evaluated were %r'
                  % (k, rec.parameters[k], e['y']))
    ctx.check(len(rec.gradients) == len(rr.grads), when + 'gradient-count',
              '%d gradient entries for %d completed gradient evaluations'
              % (len(rec.gradients), len(rr.grads)))
    for k, e in enumerate(rr.grads):
        ctx.probe('gradients-recorded')
        ctx.check(opt.same(rec.gradients[k], e['value']), when + 'gradient-entry',
                  lambda: 'gradient entry %d is %r, evaluated was %r'
                  % (k, rec.gradients[k], e['value']))


def simplify(s):
    yield from opt.simplify(s)
