"""C22: filter functions and Monte Carlo agree for weak noise, at every moment."""
import numpy as np

from .. import faults, models
from ..faults import FP, reported
from ..history import EXCS, gen_fault
from ..kernel import Violation
from ..models import Model, herm, par, plain, tau_arr

ID = 'C22'
RUNS = {'quick': 1000, 'thorough': 30000}
SHRINK_LISTS = ('ops',)
RULE = ('a run is one Monte Carlo solver that also has a filter function description of '
        'the same noise, and a seeded history of parameter updates, re-timings, failures '
        'and comparisons; the noise environment is simulated: at every draw it delivers a '
        'finite ensemble of traces whose covariance is exactly the one of the spectral '
        'density, for all or a single noise operator, scaled to be weak; non-trivial: at '
        'least two comparisons at different points')
STATE_MEASURE = ('distinct (model kind, transfer function, noise amplitudes, ensemble, '
                 'operations since the last comparison) situations')
REAL = ['qopt Monte Carlo solvers, pulse sequences, cost functions, transfer and amplitude '
        'functions', 'filter_functions']
STUB = ['noise environment (finite ensembles with exact covariance)',
        "the user's callbacks"]
PROBES = ('all-operators', 'single-operator', 'gradient', 'noise-amplitudes',
          'control-noise', 'retimed', 'after-failure', 'filter-function-first',
          'transfer-function', 'spectrum-per-operator')
ASSUMPTIONS = [
    'the noise is slow compared with a time step and weak: costs are compared with a '
    'tolerance of 3 %, gradients with 5 % of the largest entry',
    'the control operators are traceless and the Hamiltonians are not degenerate '
    '(supposed by filter_functions.gradient)',
    'noise operators are traceless, noises of different operators are independent',
    'no custom amplitude functions for noise on the controls']

POINTS = 40


def setup():
    faults.install_numeric_points()
    env_class()


_ENV = None


def env_class():
    """The simulated noise environment, a noise generator of the user."""
    global _ENV
    if _ENV is None:
        class Environment(models.q().noise.NoiseTraceGenerator):
            def __init__(self, size, noise):
                super().__init__(n_samples_per_trace=size[1], n_noise_operators=size[0],
                                 n_traces=size[2], always_redraw_samples=True)
                self.noise = noise
                self.draws = 0

            def _sample_noise(self):
                FP.hit('noise-draw')
                self.draws += 1
                self._noise_samples = self.noise()
        _ENV = Environment
    return _ENV


def generate(R, tier):
    m = models.gen_model(R, kinds=('schro',), max_nt=5, ff=False)
    m['kind'] = R.weighted((3, 'mc'), (1.2, 'mcc'))
    m['init'] = 'id'
    m['costs'] = [{'t': 'op', 's': 1}]
    m['deriv'] = R.chance(.4)
    if m['kind'] == 'mcc' and m.get('amp') and m['amp']['t'] == 'custom':
        m['amp'] = R.pick(None, {'t': 'unary', 'a': R.pick(.7, 1.3)})
    if Model(m).num_x() > 12:
        m['tf'] = None
    m['noise'] = {'no': m['nc'] if m['kind'] == 'mcc' else R.int(1, 3), 'gen': 'env',
                  's': 0, 'ampf': R.pick(None, None, 'copy') if m['kind'] == 'mc' else None}
    kinds = ('flat', 'lorentz', 'rise', 'line')
    s = {'model': m, 'psd': R.weighted((2, [R.pick(*kinds)]), (1, [R.pick(*kinds)
                                                                   for _ in range(3)])),
         'ids': R.pick('rev', 'odd'), 'ops': []}
    seeds = [R.seed32() for _ in range(3)]
    rate = R.pick(0, .15, .3)
    s['ops'].append({'o': 'compare', 'p': {'s': seeds[0]}, 'mode': 'all',
                     'first': R.pick('ff', 'mc'), 'grad': R.chance(.4)})
    for _ in range(R.int(1, 4 if tier == 'quick' else 8)):
        o = R.weighted((4, 'compare'), (1.5, 'set'), (1.5, 'time'), (1, 'query'))
        op = {'o': o, 'p': {'s': R.pick(*seeds)}}
        if o == 'compare':
            op.update(mode=R.pick('all', R.int(0, m['noise']['no'] - 1)),
                      first=R.pick('ff', 'mc', 'set'), grad=R.chance(.4))
        elif o == 'time':
            op['t'] = {'s': R.seed32()}
        elif o == 'query':
            op['w'] = R.pick('propagators', 'forward_propagators', 'ps',
                             'frechet_deriv_propagators', 'propagators_noise')
        if R.chance(rate):
            op['f'] = gen_fault(R)
        s['ops'].append(op)
    if s['ops'][-1]['o'] != 'compare':
        s['ops'].append({'o': 'compare', 'p': {'s': R.pick(*seeds)}, 'mode': 'all',
                         'first': R.pick('ff', 'mc'), 'grad': R.chance(.4)})
    return s


def identifiers(kind, n):
    return (['eps', 'B_z', 'charge', 'J1', 'A'] if kind == 'odd' else
            ['N9', 'N8', 'N7', 'N6', 'N5'])[:n]


class World:
    def __init__(self, s, ctx):
        self.s, self.ctx = s, ctx
        FP.reset(ctx)
        self.spec = s['model']
        self.tau = self.spec['tau']
        m = Model(self.spec)
        self.shape = m.shape
        self.no = self.spec['noise']['no']
        self.mode = 'all'
        self.cut = None
        self.failed = self.known = False
        self.since = []
        self.points = set()
        D = models.q().matrix.DenseOperator
        extra = {}
        if self.spec['kind'] == 'mc':
            ops = [traceless(o) for o in m.noise_opers()]
            extra['h_noise'] = [D(o.copy()) for o in ops]
        else:
            ops = [traceless(o) for o in m.noise_opers()]
        self.opers = ops
        self.times()
        # (slow noise: few modes have all of its weight)
        self.rank = min(len(self.dt), 6)
        self.env = env_class()((self.no, len(self.dt), 2 * self.rank * self.no), self.noise)
        extra['noise_trace_generator'] = self.env
        # (filter_functions.gradient supposes this)
        extra['h_ctrl'] = [D(traceless(herm(self.spec['ops'] + i, self.spec['dim'])))
                           for i in range(self.spec['nc'])]
        extra['filter_function_h_n'] = self.h_n
        self.solver = ctx.call('build', m.solver, extra)
        cf = models.q().cost_functions
        self.mc = cf.OperationNoiseInfidelity(self.solver, target=None)
        self.ff = cf.OperatorFilterFunctionInfidelity(self.solver, self.density, self.omega)

    # ---- the noise
    def times(self):
        tau = tau_arr(self.tau, self.shape[0])
        if self.spec.get('tf'):
            tf = models.build_tf(self.spec['tf'])
            tf.set_times(tau)
            self.dt = np.array(tf.x_times)
        else:
            self.dt = tau
        if self.cut is None:
            self.cut = .3 / .9
        self.omega = np.linspace(self.cut / POINTS, self.cut, POINTS)

    def density(self, omega):
        FP.hit('spectrum')
        return self.plain_density(omega)

    def plain_density(self, omega):
        p = [self.one_density(omega, k) for k in self.s['psd']]
        return p[0] if len(p) == 1 else np.array(p[:self.no])

    def one_density(self, omega, kind):
        x = np.asarray(omega) / self.cut
        return {'flat': np.ones_like(x), 'lorentz': 1. / (1. + 9. * x ** 2),
                'rise': x ** 2, 'line': np.exp(-((x - .8) / .1) ** 2)}[kind]

    def covariance(self, i=0):
        d = np.diff(self.omega)
        w = np.zeros(POINTS)
        w[:-1] += d / 2
        w[1:] += d / 2
        psd = self.s['psd']
        w *= self.one_density(self.omega, psd[i % len(psd)]) / (2 * np.pi)
        t = np.cumsum(self.dt) - self.dt / 2
        lag = t[:, None] - t[None, :]
        return np.sum(w[:, None, None] * np.cos(self.omega[:, None, None] * lag), axis=0)

    def scale(self):
        """strength of the noise relative to the spectral density"""
        c = max(self.covariance(i)[0, 0] for i in range(self.no))
        size = np.sqrt(c) * np.sum(self.dt) * max(np.linalg.norm(o, 2)
                                                        for o in self.opers)
        return 3e-3 / size

    def noise(self):
        ops = range(self.no) if self.mode == 'all' else [self.mode]
        k = self.env.n_traces
        x = np.zeros((self.no, k, len(self.dt)))
        j = 0
        for i in ops:
            val, vec = np.linalg.eigh(self.covariance(i))
            cols = (vec * np.sqrt(np.clip(val, 0., None)))[:, -self.rank:]
            for c in range(cols.shape[1]):
                for sign in (1., -1.):
                    x[i, j] = sign * self.scale() * np.sqrt(k / 2.) * cols[:, c]
                    j += 1
        return x

    def h_n(self, optimization_parameters, transferred, amps):
        FP.hit('ff-hn')
        s = self.spec
        ids = identifiers(self.s['ids'], self.no)
        n = len(amps)
        if s['kind'] == 'mcc':
            amp = models.build_amp(s.get('amp'))
            if s.get('amp'):
                coeff = amp_slope(s['amp'], transferred)
            else:
                coeff = np.ones((n, self.no))
        elif s['noise'].get('ampf'):
            f = models._NoiseAmp('copy')(
                np.ones((n, 1, self.no)), np.array(optimization_parameters),
                np.array(transferred), np.array(amps))
            coeff = f[:, 0, :]
        else:
            coeff = np.ones((n, self.no))
        return [[np.array(o), list(coeff[:, i]), ids[i]] for i, o in enumerate(self.opers)]

    # ---- operations
    def attempt(self, op, fn):
        FP.arm(op.get('f'))
        try:
            v = fn()
        except BaseException as e:
            fired = FP.disarm()
            if fired is None or not reported(fired, e):
                raise
            self.failed = True
            self.ctx.ev('failed', type(e).__name__)
            return False, None
        if FP.disarm() is not None:
            self.failed = True
        return True, v

    def run(self):
        for n, op in enumerate(self.s['ops']):
            self.ctx.ev(op['o'], n, op.get('w'), op.get('mode'), op.get('first'),
                        op.get('grad'), (op.get('f') or {}).get('point'), self.spec['kind'],
                        (self.spec.get('tf') or {}).get('t'))
            getattr(self, 'op_' + op['o'])(op)
        return self

    def op_set(self, op):
        y = par(op['p'], self.shape)
        ok, _ = self.attempt(
            op, lambda: self.solver.set_optimization_parameters(y.copy()))
        self.known = ok
        self.since.append('set')

    def op_query(self, op):
        def ask():
            if op['w'] == 'ps':
                return self.solver.create_pulse_sequence()
            return getattr(self.solver, op['w'])
        if self.known:
            self.attempt(op, ask)
            self.since.append(op['w'])

    def op_time(self, op):
        t = tau_arr(op['t'], self.shape[0])
        if not self.attempt(op, lambda: self.solver.set_times(t.copy()))[0]:
            self.known = False
        self.solver.set_times(t.copy())
        self.tau = op['t']
        self.times()
        self.since.append('time')
        self.ctx.probe('retimed')

    def op_compare(self, op):
        ctx = self.ctx
        self.mode = op['mode']
        y = par(op['p'], self.shape)
        # a new point, so that the environment is asked for noise again
        self.solver.set_optimization_parameters(y + .5)
        if op['first'] == 'set':
            self.attempt(op, lambda: self.solver.set_optimization_parameters(y.copy()))
        self.solver.set_optimization_parameters(y.copy())
        # (filter_functions.gradient needs different eigenvalues in every step)
        want_grad = op['grad'] and self.spec.get('drift') != 'none' and not self.spec.get('grape') and \
            not self.spec['noise'].get('ampf') and \
            (self.spec['kind'] == 'mc' or not self.spec.get('amp'))
        got = {}
        order = ('ff', 'mc') if op['first'] == 'ff' else ('mc', 'ff')
        if op['first'] == 'ff':
            ctx.probe('filter-function-first')
        if op.get('f') and op['first'] != 'set':
            self.attempt(op, lambda: [getattr(self, k).costs() for k in order])
        for k in order:
            c = getattr(self, k)
            got[k] = plain(c.costs())
            if want_grad:
                got[k, 'grad'] = plain(c.grad())
        rows = slice(None) if self.mode == 'all' else slice(self.mode, self.mode + 1)
        ctx.check(got['ff'].shape == (self.no,), 'number-of-infidelities',
                  repr(got['ff'].shape))
        scale = self.scale() ** 2
        ff = float(np.sum(got['ff'][rows]))
        mc = float(got['mc']) / scale
        unit = max(self.covariance(i)[0, 0] for i in range(self.no)) * np.sum(self.dt) ** 2 * max(
            np.linalg.norm(o, 2) for o in self.opers) ** 2
        ctx.check(abs(ff - mc) <= .03 * max(abs(ff), abs(mc)) + 5e-3 * unit,
                  'disagreement',
                  lambda: 'filter functions: %.6g, Monte Carlo: %.6g (operators: %s, each '
                  '%s, unit %.3g) after %s' % (ff, mc, self.mode, got['ff'], unit, self.since))
        if want_grad:
            a = np.sum(got['ff', 'grad'][:, rows], axis=1)
            b = got['mc', 'grad'] / scale
            ctx.probe('gradient')
            top = max(np.max(np.abs(a)), np.max(np.abs(b)))
            ctx.check(a.shape == b.shape and np.max(np.abs(a - b)) <= .05 * top +
                      1.5e-2 * unit, 'gradients-disagree',
                      lambda: 'filter functions: %s, Monte Carlo: %s' % (a, b))
        if len(self.s['psd']) > 1 and self.no > 1:
            ctx.probe('spectrum-per-operator')
        ctx.probe('all-operators' if self.mode == 'all' else 'single-operator')
        if self.spec['noise'].get('ampf'):
            ctx.probe('noise-amplitudes')
        if self.spec['kind'] == 'mcc':
            ctx.probe('control-noise')
        if self.failed:
            ctx.probe('after-failure')
        if self.spec.get('tf'):
            ctx.probe('transfer-function')
        ctx.state(self.spec['kind'], (self.spec.get('tf') or {}).get('t'),
                  self.spec['noise'].get('ampf'), self.mode, self.since[-3:], self.failed)
        self.known = True
        self.points.add(y.tobytes())
        self.since = []


def amp_slope(s, x):
    if s['t'] == 'unary':
        f = models.unary(s)
        return np.array([f.deriv(v) for v in np.ravel(x)], dtype=float).reshape(np.shape(x))
    return np.ones_like(x)


def traceless(o):
    return o - np.trace(o) / len(o) * np.eye(len(o))


def execute(s, ctx):
    w = World(s, ctx).run()
    ctx.nontrivial = len(w.points) > 1


def simplify(s):
    m = s['model']
    if len(s['psd']) > 1:
        yield dict(s, psd=s['psd'][:1])
    for key, val in (('tf', None), ('amp', None), ('grape', False), ('drift', 'one'),
                     ('method', None), ('deriv', False)):
        if m.get(key) and m.get(key) != val:
            yield dict(s, model=dict(m, **{key: val}))
    for n, op in enumerate(s['ops']):
        if op.get('f'):
            yield dict(s, ops=s['ops'][:n] + [{k: v for k, v in op.items() if k != 'f'}] +
                       s['ops'][n + 1:])
        if op.get('mode') not in (None, 'all', 0):
            yield dict(s, ops=s['ops'][:n] + [dict(op, mode=0)] + s['ops'][n + 1:])
