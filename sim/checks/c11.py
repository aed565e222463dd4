"""C11: objects are isolated from each other, from the module and the inputs.

Several actors (solvers with simulations, optimizers, annealers, noise
generators, transfer functions) get the very same input objects.  A seeded
scheduler interleaves their operations, also in the middle of an operation
(at the passages of fault points), as user callbacks or threads would.  Each
actor also runs alone, with inputs of its own: the outcomes must agree, and
no input and no default may ever change.
"""
import base64
import copy
import inspect
import pickle
import random
import signal
import threading

import numpy as np

from .. import faults, history, models, seams
from ..faults import FP
from ..kernel import Ctx, Violation, derive, forked
from ..models import Model, diff, par, plain, tau_arr

opt = None
ID = 'C11'
RUNS = {'quick': 1500, 'thorough': 50000}
SHRINK_LISTS = ('actors', 'schedule')
RULE = ('a run is two to five actors built from the same input objects, each with a seeded '
        'list of operations (construct, configure, run, fail), and a seeded schedule that '
        'interleaves them, also within operations; every outcome is compared with that of '
        'the actor alone, inputs and defaults are compared after every operation; '
        'non-trivial: an input object was shared and operations of different actors '
        'alternated')
STATE_MEASURE = ('distinct (kind and operation of the actor, operation of the actor it '
                 'interrupted or followed, failure) situations')
REAL, STUB = [], []
PROBES = ('preempted', 'shared-array', 'shared-operator', 'shared-list', 'shared-dict',
          'twins', 'rebuilt', 'failed', 'bad-construction', 'configured', 'annealer',
          'optimizer', 'generator', 'transfer-function', 'monte-carlo', 'lindblad',
          'fresh-run-compared')
ASSUMPTIONS = [
    'an actor uses objects that contain each other; between actors only operators, arrays, '
    'lists and dictionaries are shared, no transfer functions, generators or solvers',
    'preemption happens at calls of user functions and numerical routines and between '
    'operations',
    'the random source is set before every operation and belongs to the running actor']


def setup():
    global opt, REAL, STUB
    from .. import opt as o
    opt = o
    faults.install_numeric_points()
    models.ntg_classes()
    real = signal.signal

    def only_main(*a):
        # threads stand for actors here: they may not install handlers
        if threading.current_thread() is threading.main_thread():
            return real(*a)
    signal.signal = only_main
    REAL = ['qopt solvers, simulator, costs, optimizers, annealer, noise generators, '
            'transfer functions', 'scipy minimisers, simanneal']
    STUB = ['threads of the actors (one runs at a time, seeded schedule)', 'clocks',
            "the user's callbacks and cost functions", 'signal handlers outside the main '
            'thread']


# ------------------------------------------------------------- generation
METHODS = {'ls': ((4, 'trf'), (2, 'dogbox')),
           'sc': ((5, 'L-BFGS-B'), (3, 'Nelder-Mead'), (1, 'BFGS'), (1, 'CG'))}


def gen_solver_actor(R, base, seeds):
    m = base
    if R.chance(.5):
        m = models.gen_mc_model(R) if R.chance(.3) else models.gen_model(R)
        if m['dim'] == base['dim'] or R.chance(.3):
            m['ops'] = base['ops']
        if m['nt'] == base['nt']:
            m['tau'] = base['tau']
        if m.get('lind') and base.get('lind') and R.chance(.6):
            m['lind']['s'], m['lind']['nl'] = base['lind']['s'], base['lind']['nl']
        if m.get('ff') and base.get('ff'):
            m['ff']['s'], m['ff']['nn'] = base['ff']['s'], base['ff']['nn']
    elif R.chance(.3):
        m = copy.deepcopy(base)
        m['costs'] = models.gen_model(R, kinds=(m['kind'],))['costs'] \
            if m['kind'] == 'lind' and m['dim'] == 2 else m['costs'][:1]
        m['deriv'] = not m.get('deriv')
        m['drift'] = R.pick('one', 'single', 'none', 'per')
    ops = []
    for _ in range(R.int(2, 8)):
        o = R.weighted((3, 'set'), (4, 'q'), (3, 'cost'), (3, 'grad'), (3, 'wcost'),
                       (3, 'wjac'), (1, 'ps'), (1.5, 'time'), (.4, 'num'), (1, 'build'),
                       (.7, 'bad'))
        op = {'o': o, 'p': models.gen_par(R, seeds), 'c': R.int(0, 3),
              'w': R.pick(*history.QUERIES), 't': {'s': seeds[0] % 100}}
        if R.chance(.2):
            op['f'] = history.gen_fault(R)
        if o == 'bad':
            op['bad'] = R.pick('tau', 'method', 'ctrl', 'noise', 'initial')
        if not ops or ops[-1]['o'] == 'build':
            op['o'] = R.pick('set', 'set', 'set', 'wcost', 'wjac', o)
        if o == 'bad' and op['o'] != 'bad':
            op.pop('bad')
        ops.append(op)
    return {'k': 'solver', 'm': m, 'ops': ops}


def gen_opt_actor(R, sim, sa, seeds):
    s = copy.deepcopy(sim)
    if R.chance(.3):
        s['costs'] = s['costs'][:1]
    opts = []
    for _ in range(R.weighted((2, 1), (2, 2), (1, 3))):
        o = opt.gen_opt(R, 'C05', 1, [s])
        o['method'] = R.weighted(*METHODS[o['o']])
        o['maxiter'] = R.pick(3, 6)
        if o.get('maxwall') is not None:
            o['maxwall'] = R.pick(20, 200, 1000)
        if R.chance(.25):
            o['notc'] = True
        if o.get('weights'):
            o['weights'] = R.pick([.5, 2.], [1., 0., 10.])
        if R.chance(.35):
            o.update(o='sa', method='sa', sa=dict(
                sa, step=R.pick(1, 2, 5), ratio=R.pick(1., .3), steps=R.int(0, 12)))
        opts.append(o)
    ops = []
    for _ in range(R.int(2, 5)):
        o = R.weighted((5, 'run'), (1.5, 'conf'), (1, 'build'), (1, 'peek'))
        op = {'o': o, 'i': R.int(0, len(opts) - 1), 'v': R.pick(2, 3, 5)}
        if o == 'run':
            op['r'] = {'p': models.gen_par(R, seeds), 'gap': R.pick(0, 64), 'start': R.pick(
                'any', 'low', 'whole'), 'driver': opt.gen_driver(R, 'C05', 5, seeds, True)}
            op['r']['driver']['wait'] = None
            if R.chance(.2):
                op['r']['f'] = {'point': R.pick('cost', 'grad', 'cost-late'),
                                'nth': R.int(1, 6), 'exc': R.pick('ValueError', 'UserBug',
                                                                  'KeyboardInterrupt')}
        ops.append(op)
    return {'k': 'opt', 'sims': [s], 'opts': opts, 'ops': ops}


def generate(R, tier):
    seeds = [R.seed32() for _ in range(3)]
    base = models.gen_mc_model(R) if R.chance(.35) else models.gen_model(R)
    sim = opt.gen_sim(R, 'C05')
    if sim.get('tf'):
        sim['tf'] = None
    for c in sim['costs']:
        c['dc'], c['dg'] = c['dc'][:1], c['dg'][:1]
    sa = {'s': R.seed32(), 'frac': R.chance(.3), 'bform': R.pick('list', 'tuple', 'array'),
          'tmax': 1., 'tmin': 1e-2, 'updates': R.pick(0, 2)}
    noise = {'no': R.int(1, 3), 'traces': R.int(1, 4), 's': R.seed32() % 10 ** 6,
             'gen': None, 'redraw': False, 'given': False}
    tfn = R.int(1, 3)
    tf = models.gen_tf(R, tfn, custom_nt=3)
    actors = []
    for _ in range(R.weighted((4, 2), (3, 3), (1, 4), (.5, 5))):
        k = R.weighted((5, 'solver'), (4, 'opt'), (1.5, 'ntg'), (1, 'tf'))
        if actors and R.chance(.3):
            a = copy.deepcopy(R.pick(*actors))       # a twin with its own schedule
        elif k == 'solver':
            a = gen_solver_actor(R, base, seeds)
        elif k == 'opt':
            a = gen_opt_actor(R, sim, sa, seeds)
        elif k == 'ntg':
            n = dict(noise, gen=R.pick('qs-det', 'qs-mc', 'colored', 'scripted'),
                     redraw=R.chance(.5), given=R.chance(.4))
            a = {'k': 'ntg', 'n': n, 'x': R.int(1, 4), 'ops': [
                {'o': R.weighted((5, 'samples'), (1, 'sizes'), (1, 'build'))}
                for _ in range(R.int(1, 4))]}
        else:
            a = {'k': 'tf', 'tf': tf if R.chance(.6) else models.gen_tf(
                R, tfn, custom_nt=3), 'n': tfn, 'ops': [
                {'o': R.weighted((2, 'times'), (4, 'call'), (2, 'grad'), (1, 'build')),
                 't': {'s': R.pick(*seeds) % 100}, 'p': models.gen_par(R, seeds)}
                for _ in range(R.int(2, 6))]}
        a['fresh'] = R.chance(.4)
        actors.append(a)
    fine = R.chance(.75)
    schedule = [[R.int(0, len(actors) - 1),
                 0 if not fine or R.chance(.2) else R.weighted(
                     (3, R.int(1, 3)), (3, R.int(1, 20)), (1, R.int(1, 120)))]
                for _ in range(R.int(4, 40 if tier == 'quick' else 60))]
    return {'actors': actors, 'schedule': schedule}


# ------------------------------------------------------------ shared inputs
class Inputs:
    """Interns the inputs by value; knows what they looked like."""

    def __init__(self, ctx):
        self.ctx, self.table, self.items = ctx, {}, []

    def __call__(self, x):
        from qopt.matrix import DenseOperator
        if isinstance(x, np.ndarray):
            key = ('array', x.dtype.str, x.shape, x.flags.f_contiguous, x.tobytes())
            return self.intern(key, x, 'array')
        if type(x) is DenseOperator:
            key = ('op', x.data.dtype.str, x.data.shape, x.data.tobytes())
            return self.intern(key, x, 'operator')
        if isinstance(x, (list, tuple)):
            y = type(x)(self(e) for e in x)
            key = (type(x).__name__,) + tuple(
                ('v', type(e).__name__, repr(e)) if isinstance(e, (int, float, str, type(None)))
                else ('id', id(e)) for e in y)
            return self.intern(key, y, 'list')
        if isinstance(x, dict):
            y = {k: self(v) for k, v in x.items()}
            return self.intern(('dict', repr(sorted(y.items()))), y, 'dict')
        return x

    def intern(self, key, x, kind):
        if key in self.table:
            self.ctx.probe('shared-' + kind)
            return self.table[key]
        self.table[key] = x
        self.items.append((kind, x, snapshot(x)))
        return x

    def changed(self):
        for kind, x, before in self.items:
            now = snapshot(x)
            if now != before:
                return kind, '%r became %r' % (before, now)
        return None


def snapshot(x):
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.shape, x.flags.writeable, x.tobytes())
    if isinstance(x, dict):
        return [(k, atom(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [atom(e) for e in x]
    return ('op', type(x).__name__, id(x.data), x.data.shape, x.data.tobytes())


def atom(e):
    return repr(e) if isinstance(e, (int, float, str, bool, type(None))) else id(e)


def defaults():
    """The public defaults of the modules, by value."""
    import qopt
    out = {}
    for name in ('optimize', 'solver_algorithms', 'noise', 'simulator', 'matrix',
                 'transfer_function', 'cost_functions', 'amplitude_functions',
                 'data_container', 'analyser', 'optimization_data', 'parallel'):
        mod = getattr(qopt, name, None)
        if mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if k.startswith('_') or inspect.ismodule(v):
                continue
            if isinstance(v, (dict, list, np.ndarray)):
                out[name, k] = repr(v)
            elif inspect.isfunction(v) and v.__module__ == mod.__name__:
                out.update(arguments((name, k), v))
            elif inspect.isclass(v) and v.__module__ == mod.__name__:
                for kk, f in list(vars(v).items()):
                    if inspect.isfunction(f):
                        out.update(arguments((name, k, kk), f))
    return out


def arguments(where, f):
    out = {}
    try:
        sig = inspect.signature(f)
    except (TypeError, ValueError):
        return out
    for p in sig.parameters.values():
        if isinstance(p.default, (dict, list, set, np.ndarray)) and not p.name.startswith('_'):
            out[where + (p.name,)] = repr(p.default)
    return out


# ------------------------------------------------------------------- actors
class Actor:
    reseed = True       # before every operation (C11), or once (C16)

    def __init__(self, spec, number):
        self.spec, self.number = spec, number
        self.ctx = Ctx()
        self.outcomes = []
        self.current = None
        FP.reset(self.ctx)
        FP.on_hit = None
        self.ctx.new_clock()
        opt.ENV = None

    def run_op(self, n, op):
        self.current = op['o']
        if self.reseed:
            np.random.seed(derive('c11', n) % 2 ** 32)
            random.seed(n)
        FP.reset(self.ctx)
        FP.arm(op.get('f') if self.spec['k'] == 'solver' else None)
        try:
            v = ['ok', getattr(self, 'op_' + op['o'])(op)]
        except Violation as e:
            v = ['violation', e.sig]
        except BaseException as e:
            v = ['raises', type(e).__name__]
        FP.disarm()
        self.outcomes.append(v)

    def all_ops(self):
        return [{'o': 'build'}] + self.spec['ops']


class SolverActor(Actor):
    def op_build(self, op):
        from qopt.simulator import Simulator
        s = self.spec['m']
        m = self.m = Model(s)
        extra = {}
        if s['kind'] in ('mc', 'mcc'):
            n, x, given = s['noise'], m.num_x(), None
            if n.get('given'):
                traces = n['traces'] * (n['no'] if n['gen'] == 'qs-det' else 1)
                given = models.share(models.rs(n['s'] + 5).uniform(
                    -1, 1, (n['no'], traces, x)))
            extra = {'noise_trace_generator': models.build_ntg(n, n['no'], x, given)}
        self.s = m.solver(extra)
        self.costs = [m.cost(c, self.s) for c in s['costs']]
        self.sim = Simulator(models.share([self.s]), models.share(list(self.costs)))
        return len(self.costs)

    def y(self, op):
        return models.share(par(op['p'], self.m.shape))

    def op_set(self, op):
        self.s.set_optimization_parameters(self.y(op))

    def op_q(self, op):
        return plain(getattr(self.s, history.ATTR[op['w']]))

    def op_cost(self, op):
        return plain(self.costs[op['c'] % len(self.costs)].costs())

    def op_grad(self, op):
        c = op['c'] % len(self.costs)
        if not self.m.has_grad(self.spec['m']['costs'][c]):
            return None
        return plain(self.costs[c].grad())

    def op_wcost(self, op):
        return plain(self.sim.wrapped_cost_functions(self.y(op)))

    def op_wjac(self, op):
        if not all(self.m.has_grad(c) for c in self.spec['m']['costs']):
            return None
        return plain(self.sim.wrapped_jac_function(self.y(op)))

    def op_num(self, op):
        return np.round(plain(self.sim.numeric_gradient(self.y(op), delta_eps=1e-5)), 6)

    def op_ps(self, op):
        if self.spec['m']['kind'] == 'lind':
            return None
        ps = self.s.create_pulse_sequence()
        return plain(ps.total_propagator)

    def op_time(self, op):
        self.s.set_times(models.share(tau_arr(op['t'], self.m.nt)))

    def op_bad(self, op):
        """A construction that fails (or not) for invalid inputs."""
        D = models.q().matrix.DenseOperator
        m = Model(self.spec['m'])
        bad = op['bad']
        extra = {}
        if bad == 'tau':
            extra['tau'] = models.share(np.full(m.nt + 2, .25))
        elif bad == 'method':
            extra['exponential_method'] = 'no such method'
        elif bad == 'ctrl':
            extra['h_ctrl'] = models.share([D(models.herm(3, m.dim + 1))] * m.nc)
        elif bad == 'initial':
            extra['initial_state'] = models.share(D(models.ketv(4, m.dim + 1)))
        elif bad == 'noise':
            extra['filter_function_h_n'] = models.share([[1, 2]])
        if m.spec['kind'] in ('mc', 'mcc'):
            extra['noise_trace_generator'] = models.FixedNoise(
                np.zeros((m.spec['noise']['no'], 1, m.num_x())))
        s = m.solver(extra)
        s.set_optimization_parameters(self.y(op))
        return plain(s.propagators)


class OptActor(Actor):
    def __init__(self, spec, number):
        super().__init__(spec, number)
        self.conf = set()

    def op_build(self, op):
        self.lab = opt.Lab({k: self.spec[k] for k in ('sims', 'opts')}, self.ctx)
        self.conf = set()

    def op_run(self, op):
        r = dict(op['r'], opt=op['i'])
        rr = self.lab.run(len(self.outcomes), r)
        if rr.exc is not None:
            return ['failed', type(rr.exc).__name__]
        res = rr.result
        out = [plain(res.final_cost), plain(res.final_parameters),
               plain(res.init_parameters), str(res.status), str(res.termination_reason),
               plain(res.num_iter), plain(res.final_grad_norm),
               plain([e['y'] for e in rr.log])]
        if res.optim_summary is not None:
            out += [plain(res.optim_summary.costs), plain(res.optim_summary.parameters)]
        st = res.optimization_stats
        if st is not None:
            out += [plain(st.cost_func_eval_times), plain(st.grad_func_eval_times),
                    plain(st.end_t_opt - st.start_t_opt)]
        return out

    def op_conf(self, op):
        """The user configures his own optimizer in place."""
        o = self.lab.opts[op['i']]
        o.termination_conditions['max_iterations'] = op['v']
        o.termination_conditions['min_cost_gain'] = 1e-3
        if o.cost_func_weights is not None:
            o.cost_func_weights *= op['v']
        self.conf.add(op['i'])

    def op_peek(self, op):
        o = self.lab.opts[op['i']]
        return [repr(sorted(o.termination_conditions.items())),
                None if o.cost_func_weights is None else plain(o.cost_func_weights)]


class NoiseActor(Actor):
    def op_build(self, op):
        n, x = self.spec['n'], self.spec['x']
        given = None
        if n['given'] and n['gen'] != 'colored':
            traces = n['traces'] * (n['no'] if n['gen'] == 'qs-det' else 1)
            given = models.share(models.rs(n['s']).uniform(-1, 1, (n['no'], traces, x)))
        self.g = models.build_ntg(n, n['no'], x, given)

    def op_samples(self, op):
        return plain(self.g.noise_samples)

    def op_sizes(self, op):
        return plain([self.g.n_traces, self.g.n_samples_per_trace,
                      self.g.n_noise_operators])


class TfActor(Actor):
    def op_build(self, op):
        self.tf = models.build_tf(self.spec['tf'])
        self.tf.set_times(models.share(np.array([.25, .5, .25])))

    def op_times(self, op):
        self.tf.set_times(models.share(tau_arr(op['t'], 3)))
        return plain(self.tf.x_times)

    def op_call(self, op):
        return plain(self.tf(models.share(par(op['p'], (3, self.spec['n'])))))

    def op_grad(self, op):
        d = models.rs(5).uniform(-1, 1, (self.tf.num_x, 2, self.spec['n']))
        return plain(self.tf.gradient_chain_rule(models.share(np.round(d, 3))))


KINDS = {'solver': SolverActor, 'opt': OptActor, 'ntg': NoiseActor, 'tf': TfActor}


# ---------------------------------------------------------------- schedule
class Threads:
    """Baton passing: exactly one actor runs at a time."""

    def __init__(self, s, ctx):
        self.ctx = ctx
        self.main = threading.Semaphore(0)
        self.actors = []
        self.after_op = None
        self.previous = None
        for i, a in enumerate(s['actors']):
            x = KINDS[a['k']](a, i)
            x.sem, x.done, x.budget, x.stopped = threading.Semaphore(0), False, 0, False
            x.inside = False
            x.env = self.save()
            x.thread = threading.Thread(target=self.body, args=(x,), daemon=True)
            x.thread.start()
            self.actors.append(x)

    @staticmethod
    def save():
        w = seams.WORLD
        return (FP.save(), np.random.get_state(), random.getstate(), opt.ENV, w.clock,
                w.driver, w.random01)

    @staticmethod
    def load(env):
        w = seams.WORLD
        FP.restore(env[0])
        np.random.set_state(env[1])
        random.setstate(env[2])
        opt.ENV, w.clock, w.driver, w.random01 = env[3:]

    def body(self, x):
        x.sem.acquire()
        with np.errstate(all='ignore'):
            FP.on_hit = lambda point: self.passage(x)
            for n, op in enumerate(x.all_ops()):
                self.ctx.ev('op', x.number, n, op['o'])
                x.inside = True
                x.run_op(n, op)
                x.inside = False
                o = x.outcomes[-1]
                self.ctx.state(x.spec['k'], op['o'], op.get('bad'), self.previous,
                               o[1] if o[0] == 'raises' else o[0])
                self.previous = (x.spec['k'], op['o'])
                self.pause(x)
        x.done = True
        self.main.release()

    def passage(self, x):
        if threading.current_thread() is not x.thread or x.budget <= 0:
            return
        x.budget -= 1
        if x.budget == 0:
            self.ctx.probe('preempted')
            self.ctx.ev('preempt', x.number)
            self.previous = ('within', x.spec['k'], x.current)
            self.pause(x)

    def pause(self, x):
        self.main.release()
        x.sem.acquire()

    def step(self, x, quantum):
        x.budget = quantum
        world = self.save()
        self.load(x.env)
        x.sem.release()
        self.main.acquire()
        x.env = self.save()
        self.load(world)

    def run(self, schedule, check):
        alternations, last = 0, None
        for k, quantum in schedule:
            x = self.actors[k % len(self.actors)]
            if x.done:
                continue
            self.step(x, quantum)
            alternations += last not in (None, x.number)
            last = x.number
            check(x)
        for x in self.actors:
            while not x.done:
                self.step(x, 0)
                check(x)
        return alternations


def alone(spec, number):
    """All outcomes of one actor that has the world for itself."""
    models.SHARE = None
    x = KINDS[spec['k']](spec, number)
    for n, op in enumerate(x.all_ops()):
        x.run_op(n, op)
    return pack(x.outcomes)


def one_run(spec, n, op):
    """A single optimisation by a newly built optimizer."""
    models.SHARE = None
    one = dict(spec, opts=[spec['opts'][op['i']]])
    x = OptActor(one, 0)
    x.run_op(0, {'o': 'build'})
    x.run_op(n, dict(op, i=0))
    return pack(x.outcomes[1:])


def pack(v):
    return {'v': base64.b64encode(pickle.dumps(v)).decode()}


def unpack(r):
    if 'v' not in r:
        raise RuntimeError('reference run: %s' % r.get('error'))
    return pickle.loads(base64.b64decode(r['v']))


def compare(a, b):
    """None, or the difference of two outcomes"""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.dtype == object or b.dtype == object:
            return None if repr(a) == repr(b) else '%r instead of %r' % (a, b)
        return diff(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%d instead of %d parts: %r, %r' % (len(a), len(b), a, b)
        for x, y in zip(a, b):
            d = compare(x, y)
            if d:
                return d
        return None
    return None if type(a) is type(b) and a == b else '%r instead of %r' % (a, b)


def execute(s, ctx):
    want = [unpack(forked(lambda a=a, i=i: alone(a, i)))
            for i, a in enumerate(s['actors'])]
    single = {}
    for i, a in enumerate(s['actors']):
        if a['k'] != 'opt' or not a.get('fresh'):
            continue
        conf = set()
        for n, op in enumerate(a['ops']):
            if op['o'] == 'conf':
                conf.add(op['i'])
            elif op['o'] == 'build':
                conf = set()
            elif op['o'] == 'run' and op['i'] not in conf:
                single[i, n + 1] = unpack(forked(lambda: one_run(a, n + 1, op)))[0]
    inputs = Inputs(ctx)
    models.SHARE = inputs
    before = defaults()
    t = Threads(s, ctx)
    seen = [0] * len(t.actors)

    def check(x):
        c = inputs.changed()
        ctx.check(c is None, 'input-changed:%s' % (c or ('',))[0],
                  lambda: 'by or during %s of actor %d (%s): %s' % (
                      x.current, x.number, x.spec['k'], c[1][:1500]))
        while seen[x.number] < len(x.outcomes):
            n = seen[x.number]
            seen[x.number] += 1
            d = compare(x.outcomes[n], want[x.number][n])
            name = x.all_ops()[n]['o']
            ctx.check(d is None, 'depends-on-others:%s:%s' % (x.spec['k'], name), lambda: (
                'actor %d, operation %d: %s' % (x.number, n, d)))
            if (x.number, n) in single:
                d = compare(x.outcomes[n], single[x.number, n])
                ctx.check(d is None, 'depends-on-earlier-objects:run', lambda: (
                    'actor %d, operation %d: %s' % (x.number, n, d)))
                ctx.probe('fresh-run-compared')
            now = defaults()
            ctx.check(now == before, 'defaults-changed', lambda: '; '.join(
                '%s: %s instead of %s' % ('.'.join(k), now.get(k), before.get(k))
                for k in before if now.get(k) != before[k]) or 'new defaults')
            o = x.outcomes[n]
            probe(ctx, x, x.all_ops()[n], o)
            ctx.ev('done', x.number, n, o[0], o[1] if o[0] != 'ok' else '')

    alternations = t.run(s['schedule'], check)
    models.SHARE = None
    specs = [repr(sorted(a.items())) for a in s['actors']]
    if len({repr({k: v for k, v in a.items() if k not in ('ops', 'fresh')})
            for a in s['actors']}) < len(specs):
        ctx.probe('twins')
    for x in t.actors:
        for k, v in x.ctx.faults.items():
            ctx.faults[k] += v
        ctx.extra_time += x.ctx.clock.total
    ctx.nontrivial = alternations >= 2 and any(k.startswith('shared-') for k in ctx.probes)


def probe(ctx, x, op, o):
    k = x.spec['k']
    if op['o'] == 'build' and seen_before(x):
        ctx.probe('rebuilt')
    if o[0] == 'raises' or (o[0] == 'ok' and isinstance(o[1], list) and str(o[1][:1]) == "['failed']"):
        ctx.probe('failed')
    if op['o'] == 'bad':
        ctx.probe('bad-construction')
    if op['o'] == 'conf':
        ctx.probe('configured')
    if k == 'opt' and op['o'] == 'run':
        ctx.probe('annealer' if x.spec['opts'][op['i']]['o'] == 'sa' else 'optimizer')
    if k == 'ntg':
        ctx.probe('generator')
    if k == 'tf':
        ctx.probe('transfer-function')
    if k == 'solver':
        kind = x.spec['m']['kind']
        ctx.probe({'mc': 'monte-carlo', 'mcc': 'monte-carlo', 'lind': 'lindblad'}.get(
            kind, 'schroedinger'))


def seen_before(x):
    return len(x.outcomes) > 1


def simplify(s):
    for i, a in enumerate(s['actors']):
        for n in range(len(a['ops'])):
            yield dict(s, actors=s['actors'][:i] + [
                dict(a, ops=a['ops'][:n] + a['ops'][n + 1:])] + s['actors'][i + 1:])
        for n, op in enumerate(a['ops']):
            if op.get('f'):
                yield dict(s, actors=s['actors'][:i] + [dict(a, ops=a['ops'][:n] + [
                    {k: v for k, v in op.items() if k != 'f'}] + a['ops'][n + 1:])]
                    + s['actors'][i + 1:])
        if a.get('fresh'):
            yield dict(s, actors=s['actors'][:i] + [dict(a, fresh=False)] + s['actors'][i + 1:])
        if a['k'] == 'solver':
            for key, val in (('tf', None), ('amp', None), ('ff', None), ('grape', False)):
                if a['m'].get(key):
                    yield dict(s, actors=s['actors'][:i] + [dict(a, m=dict(
                        a['m'], **{key: val}))] + s['actors'][i + 1:])
    for n, (k, quantum) in enumerate(s['schedule']):
        if quantum:
            yield dict(s, schedule=s['schedule'][:n] + [[k, 0]] + s['schedule'][n + 1:])
