"""C04: Monte Carlo over worker processes equals the serial computation."""
import multiprocessing.pool

from .. import faults, models, pool, seams
from ..kernel import Violation
from ..models import Model
from . import c03
from .c01 import simplify_models

ID = 'C04'
RUNS = {'quick': 2400, 'thorough': 50000}
SHRINK_LISTS = ('ops', 'schedule')
RULE = ('a run is one Monte Carlo model evaluated by simulated worker processes under a '
        'seeded task schedule, with a seeded history of updates and queries and pool '
        'failures; every answer is matched with the serial computation; non-trivial: at '
        'least one answer was compared and at least two tasks ran')
STATE_MEASURE = ('distinct (query, queries answered before, draws, failure before) '
                 'situations; interleavings count distinct task/worker orders')
REAL = ['qopt Monte Carlo solvers, generators, costs, simulator', 'pickle of arguments and '
        'results']
STUB = ['worker processes (SimPool, one process, seeded schedule)', 'number of CPUs']
PROBES = ('isolated-oracle', 'pool-used', 'several-tasks', 'answer-after-pool-failure', 'all-cpus')
FAULTS = ('pool-start', 'pool-task', 'pool-encode', 'pool-interrupt')
ASSUMPTIONS = ['a worker process fails by an exception; a worker that is killed makes '
               'multiprocessing.Pool itself hang and is outside the model']


def setup():
    c03.setup()


def generate(R, tier):
    m = models.any_method(R, models.gen_mc_model(R))
    m['noise']['traces'] = R.int(1, 6)
    m['noise']['given'] = m['noise']['given'] and m['noise']['traces'] > 0
    m['grape'] = R.chance(.3)
    m['deriv'] = False
    m['processes'] = R.weighted((3, 2), (2, 3), (1, 4), (1, 7), (2, None))
    pairs = [[0, c] for c in range(len(m['costs']))]
    s = {'models': [m], 'sims': [pairs], 'ops': [], 'share': False,
         'cpus': R.int(1, 8), 'schedule': [R.int(0, 11) for _ in range(R.int(1, 12))]}
    seeds = [R.seed32() for _ in range(2)]
    pars = [models.gen_par(R, seeds) for _ in range(R.int(1, 3))]
    s['ops'].append({'o': 'set', 'i': 0, 'p': R.pick(*pars)})
    rate = R.pick(0, .3, .6)
    for _ in range(R.int(2, 9 if tier == 'quick' else 16)):
        o = R.weighted((3, 'set'), (6, 'q'), (3, 'cost'), (1.5, 'grad'), (3, 'wcost'),
                       (1, 'wjac'), (.6, 'time'))
        op = {'o': o}
        if o == 'set':
            op.update(i=0, p=R.pick(*pars))
        elif o == 'q':
            op.update(i=0, w=R.weighted((4, 'prop-noise'), (3, 'fwd-noise'),
                                        (2, 'rev-noise'), (1 if m['grape'] else 0,
                                                           'deriv-noise'), (1, 'fwd')))
        elif o in ('cost', 'grad'):
            op.update(i=0, c=R.int(0, len(m['costs']) - 1))
        elif o in ('wcost', 'wjac'):
            op.update(j=0, p=R.pick(*pars))
        else:
            op.update(i=0, t={'s': R.seed32()})
        if o not in ('set', 'time') and R.chance(rate):
            op['f'] = {'kind': R.pick('start', 'task', 'task', 'encode', 'interrupt'),
                       'at': R.pick(0, 0, 1, 2, 3, 5),
                       'exc': R.pick('RuntimeError', 'MemoryError', 'ValueError',
                                     'OSError')}
        s['ops'].append(op)
        if 'f' in op and R.chance(.7):
            s['ops'].append({k: v for k, v in op.items() if k != 'f'})
    s['iso'] = R.chance(.3)
    return s


class Workers(c03.Noisy):
    def __init__(self, s, ctx):
        self.pw = seams.WORLD.pools = pool.PoolWorld(ctx, s['schedule'], (), s['cpus'])
        super().__init__(s, ctx)
        m = s['models'][0]
        self.solvers[0].processes = m['processes']
        ctx.check(self.solvers[0].processes == m['processes'], 'processes', '')
        self.pool_failed = False

    def _attempt(self, op, fn):
        f = op.get('f')
        pw = self.pw
        pw.faults = []
        if f:
            pw.faults = [dict(f, at=len(pw.pools) if f['kind'] == 'start'
                              else pw.n_tasks + f['at'])]
        n, p = pw.n_tasks, len(pw.pools)
        try:
            v, err = fn(), None
        except Violation:
            raise
        except BaseException as e:
            v, err = None, e
        done = bool(pw.faults and pw.faults[0].get('done'))
        pw.faults = []
        left = pw.leaked()
        self.ctx.check(not left, 'worker-left-behind',
                       '%d pools were neither joined nor terminated' % len(left))
        if len(pw.pools) > p:
            self.ctx.probe('pool-used')
            if self.s['models'][0]['processes'] is None:
                self.ctx.probe('all-cpus')
            self.ran = max(self.ran, pw.n_tasks - n)
            if pw.n_tasks - n > 1:
                self.ctx.probe('several-tasks')
        if err is not None:
            if not done:
                raise err
            self.any_fault = self.pool_failed = True
            want = {'start': OSError, 'encode': multiprocessing.pool.MaybeEncodingError,
                    'interrupt': KeyboardInterrupt}.get(f['kind']) or pool.EXC[f['exc']]
            if not (isinstance(err, want) or faults_chain(err, want)):
                raise Violation('failure-misreported', 'injected %s, caller got %r'
                                % (want.__name__, err))
            return False, err
        if done:
            raise Violation('failure-swallowed', 'an injected %s failure did not reach '
                            'the caller' % f['kind'])
        return True, v

    ran = 0

    def match(self, i, v, label, fresh, quiet=False):
        super().match(i, v, label, fresh, quiet)
        if self.pool_failed:
            self.ctx.probe('answer-after-pool-failure')

    def has_grad(self, i, spec):
        return (spec['t'] in ('op', 'opnoise') and bool(self.models[i].spec.get('grape')))


def faults_chain(e, want):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        if isinstance(e, want):
            return True
        e = e.__cause__ or e.__context__
    return False


def execute(s, ctx):
    h = Workers(s, ctx)
    h.run()
    ctx.nontrivial = h.ran > 1 and ctx.evaluations > 0


def simplify(s):
    yield from simplify_models(s)
    m = s['models'][0]
    if m['processes'] not in (2, 1):
        yield dict(s, models=[dict(m, processes=2)])
    if m['noise']['traces'] > 2:
        yield dict(s, models=[dict(m, noise=dict(m['noise'], traces=2))])
