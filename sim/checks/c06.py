"""C06: the wall time limit is honoured exactly, whatever the clocks do."""
from ..kernel import Violation

opt = None
ID = 'C06'
RUNS = {'quick': 3000, 'thorough': 60000}
SHRINK_LISTS = ('runs',)
RULE = ('a run is one to four optimisations (scripted drivers and real scipy methods) with '
        'a wall time limit on a virtual clock, seeded durations of every evaluation, driver '
        'stalls and steps of the system clock; non-trivial: at least one optimisation was '
        'ended by the limit')
STATE_MEASURE = ('distinct (minimiser, method, gradient use, abort, failure, number of '
                 'evaluations, ordinal of the run) situations')
PROBES = ('aborted', 'ended-normally', 'run-failed', 'limit-passed-in-driver',
          'limit-exactly-met', 'zero-limit', 'driver:real', 'driver:fake',
          'method:trf', 'method:dogbox', 'method:lm', 'method:L-BFGS-B',
          'method:Nelder-Mead', 'method:BFGS', 'method:Powell', 'method:CG',
          'method:COBYLA', 'method:SLSQP', 'method:TNC', 'method:trust-constr')
FAULTS = ('wall-clock-back', 'wall-clock-ahead', 'driver-stall', 'cost', 'grad')
ASSUMPTIONS = ['time passes only inside cost and gradient evaluations and in the driver '
               '(durations are multiples of 1/1024 s, so no rounding is involved)',
               'an evaluation that starts exactly at the limit may or may not be done']


def setup():
    global opt, REAL, STUB
    from .. import opt as o
    opt = o
    REAL, STUB = o.REAL, o.STUB


def generate(R, tier):
    s = opt.gen(R, tier, 'C06', runs=(1, 3), nsteps=10)
    if R.chance(.7):
        s['wall'] = {str(R.int(0, 25)): R.pick(-1, 1) * R.pick(1, 300, 3000, 10 ** 6, 10 ** 8)
                     for _ in range(R.int(1, 5))}
    for r in s['runs']:
        if R.chance(.3):
            r['prewall'] = R.pick(-1, 1) * R.pick(5, 3000, 10 ** 7)
        d = r['driver']
        if d['d'] == 'fake' and R.chance(.4):
            d['loop'] = R.int(5, 40)
    return s


def execute(s, ctx):
    lab = opt.Lab(s, ctx)
    lab.clock.advance(s['sims'][0]['ops'] * opt.UNIT)
    for i, r in enumerate(s['runs']):
        lab.step_wall(r.get('prewall', 0))
        rr = lab.run(i, r)
        judge(rr, ctx)
    opt.close()


def judge(rr, ctx):
    limit = rr.opt.termination_conditions['max_wall_time']
    t0 = rr.start[0]
    if rr.o.get('maxwall') is not None and rr.o['maxwall'] * opt.UNIT != limit:
        raise Violation('limit-lost', 'asked for %r, the optimizer has %r' %
                        (rr.o['maxwall'] * opt.UNIT, limit))
    for n, e in enumerate(x for x in rr.log if x['kind'] == 'cost' and not x['nested']):
        gone = e['mono'] - t0
        ctx.check(gone <= limit, 'evaluation-after-limit',
                  'evaluation %d starts %.6f s after the start, the limit is %.6f s'
                  % (n, gone, limit))
        if gone == limit and gone > 0:
            ctx.probe('limit-exactly-met')
    raised = rr.driver.raised
    cut = raised is not None and rr.fired is None
    if limit == 0:
        ctx.probe('zero-limit')
    if rr.result is not None:
        ctx.check(not (cut and not rr.aborted), 'limit-not-reported',
                  'the cost function refused (%r), reported: %r' %
                  (raised, rr.result.termination_reason))
        if rr.aborted:
            ctx.nontrivial = True
            gone = rr.end[0] - t0
            ctx.check(gone >= limit, 'ended-too-early',
                      'ended by the limit %.6f s after %.6f s' % (limit, gone))
            ctx.check(rr.result.status == 5, 'abort-status',
                      'status %r' % (rr.result.status,))
            last = max([e['mono'] for e in rr.log] + [t0])
            if rr.driver.spec.get('wait'):
                ctx.probe('limit-passed-in-driver')
        else:
            ctx.check(rr.driver.result is not None, 'end-without-driver', '')


def simplify(s):
    yield from opt.simplify(s)
