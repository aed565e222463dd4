"""C13: simulated annealing stays in bounds and reports the best visited pulse."""
import copy
import random
import signal

import numpy as np

from .. import models, seams

opt = None
ID = 'C13'
RUNS = {'quick': 4000, 'thorough': 150000}
SHRINK_LISTS = ('runs',)
RULE = ('a run is one or two annealers and one to four annealings with seeded or adversarial '
        'random streams (always extreme steps, nothing or everything moved or accepted, '
        'ties), schedules, cost values that are infinite or tied, failing evaluations and '
        'interrupts by the user; every evaluated pulse is checked against the possible '
        'predecessors, the report against all evaluations; non-trivial: a move was '
        'rejected or a run followed another run')
STATE_MEASURE = ('distinct (step size, ratio, stream kinds, forms of bounds and start, '
                 'numbers of steps, failure, ordinal of the run) situations')
PROBES = ('annealed', 'clipped', 'rejected', 'repeated-run', 'run-after-failure', 'run-failed',
          'infinite-cost', 'tied-best', 'best-is-initial', 'integer-pulse', 'start-at-bound',
          'fraction', 'integer-pulse-fraction', 'bounds-exclude-zero', 'interrupted', 'run-after-interrupt', 'report-kept', 'two-annealers',
          'shared-bounds', 'updates', 'no-steps', 'extreme-steps', 'steps-checked')
FAULTS = ('cost', 'cost-late', 'sigint')
ASSUMPTIONS = [
    'the initial pulse lies within the bounds and costs are no NaN',
    'interrupts by the user occur with one annealer (simanneal lets the annealer that was '
    'constructed last handle them)']
REAL, STUB = [], []


def setup():
    global opt, REAL, STUB
    from .. import opt as o
    opt = o
    REAL = ['qopt SimulatedAnnealing, PulseAnnealer, Simulator, solver', 'simanneal']
    STUB = ['random sources of Python and numpy (seeded or adversarial)', 'clocks',
            "the user's cost functions (analytic or scripted, failing)"]


def generate(R, tier):
    sims = []
    for _ in range(R.weighted((4, 1), (1, 2))):
        s = opt.gen_sim(R, 'C13')
        s.pop('tf', None)
        if R.chance(.2):
            s['tf'] = {'t': 'scale', 'n': s['nc'], 'f': .5}
        if R.chance(.35):
            for c in s['costs']:
                c['script'] = {str(R.int(0, 20)): [
                    R.weighted((1, 'inf'), (2, 0.), (3, round(R.uniform(-3, 3), 2)))
                    for _ in range(c['n'])] for _ in range(R.int(1, 6))}
        sims.append(s)
    opts = []
    for _ in range(R.weighted((3, 1), (1, 2))):
        o = {'sim': R.int(0, len(sims) - 1), 'o': 'sa', 'method': 'sa',
             'store': R.chance(.3)}
        o['sa'] = {'s': R.seed32(), 'frac': R.chance(.3),
                   'shift': R.pick(0, 0, 0, 9, -9), 'step': R.pick(1, 1, 2, 3, 5),
                   'bform': R.pick('list', 'tuple', 'array'),
                   'ratio': R.pick(1., .7, .3, .05, 0.), 'steps': R.weighted(
                       (1, 0), (1, 1), (6, R.int(2, 14)), (2, R.int(15, 60))),
                   'tmax': R.pick(1., 10., 1e-3, 1e3), 'tmin': R.pick(1e-6, 1e-2, 1.),
                   'updates': R.pick(0, 0, 0, 1, 2, 7)}
        opts.append(o)
    if len(opts) == 2 and R.chance(.5):
        opts[1] = dict(opts[1], sa=dict(opts[1]['sa'], s=opts[0]['sa']['s'],
                                        frac=opts[0]['sa']['frac'],
                                        shift=opts[0]['sa']['shift']), sim=opts[0]['sim'])
    s = {'sims': sims, 'opts': opts, 'runs': []}
    seeds = [R.seed32() for _ in range(3)]
    for _ in range(R.int(1, 4)):
        r = {'opt': R.int(0, len(opts) - 1), 'p': models.gen_par(R, seeds),
             'gap': R.pick(0, 0, 512), 'forder': R.chance(.2), 'seed': R.seed32(),
             'start': R.weighted((4, 'any'), (3, 'int'), (2, 'whole'), (1, 'low'),
                                 (1, 'high')),
             'accept': R.pick('random', 'random', 'random', 'zero', 'one', 'mixed'),
             'steps': R.pick('random', 'random', 'random', 'low', 'high', 'mixed'),
             'mask': R.pick('random', 'random', 'zero', 'one')}
        if sims[opts[r['opt']]['sim']].get('tf') and r['start'] == 'int':
            r['start'] = 'whole'
        if R.chance(.2):
            r['f'] = {'point': R.pick('cost', 'cost-late'), 'nth': R.int(1, 12),
                      'exc': R.pick('ValueError', 'UserBug', 'KeyboardInterrupt',
                                    'MemoryError')}
        elif len(opts) == 1 and R.chance(.15):
            r['sigint'] = R.int(1, 8)
        s['runs'].append(r)
    return s


class Streams:
    """The random streams that the annealer sees."""

    def __init__(self, r):
        self.rnd = random.Random(r['seed'])
        self.r = r
        np.random.seed(r['seed'] % 2 ** 32)
        self.real = np.random.randint, np.random.rand

    def __enter__(self):
        seams.WORLD.random01 = self.random
        np.random.randint, np.random.rand = self.randint, self.rand
        return self

    def __exit__(self, *a):
        seams.WORLD.random01 = None
        np.random.randint, np.random.rand = self.real

    def random(self):
        k = self.r['accept']
        if k == 'mixed':
            k = self.rnd.choice(['zero', 'one', 'random'])
        return {'zero': 0., 'one': 1 - 2. ** -53}.get(k) if k != 'random' else \
            self.rnd.random()

    def randint(self, *a, **kw):
        v = self.real[0](*a, **kw)
        k = self.r['steps']
        if k == 'random' or not isinstance(v, np.ndarray):
            return v
        try:
            low = kw.get('low', a[0] if a else None)
            high = kw.get('high', a[1] if len(a) > 1 else None)
            if high is None:
                low, high = 0, low
            if k == 'low':
                v[...] = low
            elif k == 'high':
                v[...] = high - 1
            else:
                v[...] = np.where(v % 2 == 0, low, high - 1)
        except (TypeError, ValueError):
            pass
        return v

    def rand(self, *a):
        v = self.real[1](*a)
        k = self.r['mask']
        if k == 'zero':
            return v * 0.
        if k == 'one':
            return v * 0. + (1 - 2. ** -53)
        return v


def reachable(p, y, lo, hi, step):
    """Can y be reached from p by clipped integer steps?"""
    d = np.round(y - p)
    plain = (np.abs(y - p - d) < 1e-9) & (np.abs(d) <= step)
    low = (np.abs(y - lo) < 1e-9) & (p - step <= lo + 1e-9)
    high = (np.abs(y - hi) < 1e-9) & (p + step >= hi - 1e-9)
    return bool(np.all(plain | low | high)), bool(np.all(plain))


def execute(s, ctx):
    handler = signal.getsignal(signal.SIGINT)
    state = np.random.get_state()
    try:
        run(s, ctx)
    finally:
        signal.signal(signal.SIGINT, handler)
        np.random.set_state(state)
        opt.close()


def run(s, ctx):
    lab = opt.Lab(s, ctx)
    if len(s['opts']) > 1:
        ctx.probe('two-annealers')
        a, b = lab.opts
        if s['opts'][0]['sa']['s'] == s['opts'][1]['sa']['s'] and \
                s['opts'][0]['sim'] == s['opts'][1]['sim']:
            # the same arrays were given to both
            b.annealer.bounds = a.annealer.bounds
            ctx.probe('shared-bounds')
    kept = []
    ran = {}
    for i, r in enumerate(s['runs']):
        o = s['opts'][r['opt']]
        a = o['sa']
        bounds = lab.opts[r['opt']].annealer.bounds
        before = copy.deepcopy(np.asarray(bounds))
        with Streams(r):
            rr = lab.run(i, r)
        ctx.check(np.array_equal(rr.init, rr.pulse) and rr.pulse.dtype == rr.init.dtype,
                  'initial-pulse-changed', lambda: '%r became %r' % (rr.init, rr.pulse))
        ctx.check(np.array_equal(before, np.asarray(bounds)), 'bounds-changed', '')
        prev = ran.get(r['opt'], ())
        if prev:
            ctx.nontrivial = True
            ctx.probe('repeated-run')
            for k in ('failure', 'interrupt'):
                if k in prev:
                    ctx.probe('run-after-' + k)
        interrupted = bool(r.get('sigint')) and lab.sigint is None
        if interrupted:
            ctx.probe('interrupted')
        judge(rr, r, a, s['sims'][o['sim']], ctx, interrupted)
        ran[r['opt']] = prev + ('failure' if rr.exc is not None else
                                'interrupt' if interrupted else 'run',)
        for res, final, cost, init in kept:
            ctx.probe('report-kept')
            ctx.check(opt.same(res.final_parameters, final) and
                      opt.same(res.final_cost, cost) and
                      opt.same(res.init_parameters, init), 'report-changed-later',
                      lambda: '%r, %r became %r, %r' % (
                          final, cost, res.final_parameters, res.final_cost))
        if rr.result is not None:
            kept.append((rr.result, np.array(rr.result.final_parameters),
                         np.array(rr.result.final_cost),
                         np.array(rr.result.init_parameters)))
        ctx.state(a['step'], a['ratio'], r['accept'], r['steps'], r['mask'], a['bform'],
                  a['frac'], r['start'], min(len(rr.costs), 9), type(rr.exc).__name__,
                  min(i, 2), interrupted)


def judge(rr, r, a, s, ctx, interrupted):
    lo, hi = (np.asarray(b, float) for b in opt.bounds_of(a, s))
    step = a['step']
    began = [e for e in rr.log if e['kind'] == 'cost' and not e['nested']]
    ys = [e['y'] for e in began]
    ctx.check(ys, 'nothing-evaluated', '')
    ctx.check(np.array_equal(ys[0], rr.init), 'first-evaluation',
              lambda: 'evaluated %r, given %r' % (ys[0], rr.init))
    if rr.init.dtype.kind == 'i':
        ctx.probe('integer-pulse')
    if r['start'] in ('low', 'high'):
        ctx.probe('start-at-bound')
    if a['frac']:
        ctx.probe('fraction')
        if rr.init.dtype.kind == 'i':
            ctx.probe('integer-pulse-fraction')
    if a['shift']:
        ctx.probe('bounds-exclude-zero')
    if a['updates']:
        ctx.probe('updates')
    if r['steps'] != 'random':
        ctx.probe('extreme-steps')
    if a['steps'] == 0:
        ctx.probe('no-steps')
    possible = [ys[0]]
    for n, y in enumerate(ys):
        ctx.check(y.shape == lo.shape and np.all(y >= lo - 1e-12) and np.all(y <= hi + 1e-12),
                  'out-of-bounds', lambda: 'evaluation %d: %r, bounds %r, %r' % (n, y, lo, hi))
        if n == 0:
            continue
        pred = []
        for p in possible:
            ok, plain = reachable(p, y, lo, hi, step)
            if ok:
                pred.append(p)
                if not plain:
                    ctx.probe('clipped')
        ctx.check(pred, 'step', lambda: 'evaluation %d: %r cannot be reached from %r by '
                  'steps of at most %d within %r, %r' % (n, y, possible, step, lo, hi))
        if not any(np.array_equal(p, ys[n - 1]) for p in pred):
            ctx.probe('rejected')
            ctx.nontrivial = True
        possible = pred + [y]
    if rr.exc is not None or rr.result is None:
        ctx.probe('run-failed')
        return
    ctx.probe('annealed')
    done = rr.costs
    ctx.check(len(done) == len(began), 'evaluation-not-completed', '')
    norms = [float(np.linalg.norm(opt.expected_costs(e))) for e in done]
    best = min(norms)
    if np.isinf(norms).any():
        ctx.probe('infinite-cost')
    if norms.count(best) > 1:
        ctx.probe('tied-best')
    if norms[0] == best:
        ctx.probe('best-is-initial')
    res = rr.result
    got = float(res.final_cost)
    ctx.check(np.isclose(got, best, rtol=1e-12, atol=0) or got == best, 'not-the-best-cost',
              lambda: 'reported %r, the best of %d evaluations is %r' % (got, len(norms), best))
    final = np.asarray(res.final_parameters)
    mine = [n for n, e in enumerate(done) if np.array_equal(e['y'], final)]
    ctx.check(mine, 'reported-pulse-not-evaluated', lambda: repr(final))
    ctx.check(any(np.isclose(norms[n], got, rtol=1e-12, atol=0) or norms[n] == got
                  for n in mine), 'cost-of-another-pulse',
              lambda: 'reported %r, evaluated there %r' % (got, [norms[n] for n in mine]))
    ctx.check(opt.same(res.init_parameters, rr.init), 'initial-parameters', '')
    ctx.check(res.init_parameters is not rr.pulse, 'initial-parameters-shared', '')
    if not interrupted:
        ctx.probe('steps-checked')
        ctx.check(len(done) == a['steps'] + 1, 'number-of-steps',
                  lambda: '%d evaluations in %d steps' % (len(done), a['steps']))
    else:
        ctx.check(len(done) <= a['steps'] + 1, 'number-of-steps', '')


def simplify(s):
    if len(s['sims']) > 1 or len(s['opts']) > 1:
        for k, o in enumerate(s['opts']):
            runs = [dict(r, opt=0) for r in s['runs'] if r['opt'] == k]
            if runs:
                yield {'sims': [s['sims'][o['sim']]], 'opts': [dict(o, sim=0)], 'runs': runs}
    for i, r in enumerate(s['runs']):
        def put(**k):
            return dict(s, runs=s['runs'][:i] + [dict(r, **k)] + s['runs'][i + 1:])
        for k in ('f', 'sigint', 'gap', 'forder'):
            if r.get(k):
                yield put(**{k: None if k == 'f' else 0})
        for k in ('accept', 'steps', 'mask'):
            if r[k] != 'random':
                yield put(**{k: 'random'})
    for i, o in enumerate(s['opts']):
        def puto(**k):
            return dict(s, opts=s['opts'][:i] + [dict(o, sa=dict(o['sa'], **k))]
                        + s['opts'][i + 1:])
        if o['sa']['steps'] > 1:
            yield puto(steps=o['sa']['steps'] // 2)
            yield puto(steps=o['sa']['steps'] - 1)
        if o['sa']['updates']:
            yield puto(updates=0)
        if o['sa']['frac']:
            yield puto(frac=False)
        if o['sa'].get('shift'):
            yield puto(shift=0)
        if o['sa']['step'] > 1:
            yield puto(step=1)
    for i, x in enumerate(s['sims']):
        for key in ('tf',):
            if x.get(key):
                yield dict(s, sims=s['sims'][:i] + [dict(x, **{key: None})]
                           + s['sims'][i + 1:])
        if len(x['costs']) > 1:
            yield dict(s, sims=s['sims'][:i] + [dict(x, costs=x['costs'][:1])]
                       + s['sims'][i + 1:])
        for k, c in enumerate(x['costs']):
            if c.get('script'):
                nc = x['costs'][:k] + [dict(c, script=None)] + x['costs'][k + 1:]
                yield dict(s, sims=s['sims'][:i] + [dict(x, costs=nc)] + s['sims'][i + 1:])
