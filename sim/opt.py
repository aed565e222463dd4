"""The optimisation laboratory: probe cost functions on a virtual clock, a
recording simulator, scripted and real minimisation drivers.

Import only after the seams are installed (the checks do so in setup()).
"""
import copy
import inspect
import signal

import numpy as np

from qopt import cost_functions, optimize, simulator, solver_algorithms, matrix

from . import models, seams
from .faults import FP, KINDS
from .kernel import Violation, oracle_of, short_tb, sut_frame
from .models import par

UNIT = 1. / 1024        # all durations are multiples: exact in binary
ENV = None              # the laboratory of this run (never pickled)


def share(x):
    return models.share(x)


def number(v):
    return float(v)     # 'nan', 'inf' are spelled as strings in scenarios


class ProbeCost(cost_functions.CostFunction):
    """A user's cost function: n quadratic values of the transferred pulse.

    Takes virtual time, re-uses its result buffer if asked to, and may return
    scripted values at certain evaluations.
    """

    def __init__(self, solver, spec, index):
        n = spec['n']
        super().__init__(solver, label=['c%d.%d' % (index, k) for k in range(n)])
        self.spec, self.index = spec, index
        self.n_cost = self.n_grad = 0
        self.buf = np.zeros(n)

    def _par(self, k, shape):
        r = models.rs(self.spec['s'] + k)
        return (np.round(r.uniform(-1, 1, shape), 3), np.round(r.uniform(-1, 1, shape), 3),
                round(float(r.uniform(.2, 1.2)), 3), round(float(r.uniform(-1, 1)), 3))

    def _wait(self, key, n):
        d = self.spec.get(key)
        if d and seams.WORLD.clock is not None:
            dt = d[n % len(d)] * UNIT
            seams.WORLD.clock.advance(dt)
            return dt
        return 0.

    def costs(self):
        FP.hit('cost')
        n = self.n_cost
        self.n_cost += 1
        if ENV is not None:
            ENV.enter_cost(self.index, n)
        x = self.solver.transferred_parameters
        out = self.buf if self.spec.get('buf') else np.zeros(self.spec['n'])
        for k in range(self.spec['n']):
            w, c, q, o = self._par(k, x.shape)
            out[k] = o + np.sum(w * x) + .5 * q * np.sum((x - c) ** 2)
        if self.spec.get('pos'):
            out[:] = np.abs(out) + .001
        over = (self.spec.get('script') or {}).get(str(n))
        if over is not None:
            out[:] = [number(v) for v in over]
        thr = self.spec.get('raise_above')
        if thr is not None and float(x.flat[0]) > thr:
            raise KINDS[self.spec.get('raise_kind', 'ValueError')](
                'the cost function of the user refuses this pulse')
        half = self._wait('dc', n)
        FP.hit('cost-late')
        if ENV is not None:
            ENV.leave_cost(self.index, np.array(out), half)
        if self.spec.get('scalar') and self.spec['n'] == 1:
            return float(out[0])
        return out

    def grad(self):
        FP.hit('grad')
        n = self.n_grad
        self.n_grad += 1
        x = self.solver.transferred_parameters
        out = np.zeros((x.shape[0], self.spec['n'], x.shape[1]))
        for k in range(self.spec['n']):
            w, c, q, o = self._par(k, x.shape)
            g = w + q * (x - c)
            if self.spec.get('pos'):
                v = o + np.sum(w * x) + .5 * q * np.sum((x - c) ** 2)
                g = g * np.sign(v)
            out[:, k, :] = g
        if self.spec.get('gscript'):
            over = self.spec['gscript'].get(str(n))
            if over is not None:
                out[0, 0, 0] = number(over)
        dt = self._wait('dg', n)
        FP.hit('grad-late')
        if ENV is not None:
            ENV.leave_grad(self.index, np.array(out), dt)
        if self.spec.get('flat') and self.spec['n'] == 1:
            return out[:, 0, :]
        return out


class RecordingSimulator(simulator.Simulator):
    """Marks the begin and the end of every evaluation in the log."""

    def wrapped_cost_functions(self, pulse=None):
        if ENV is None:
            return super().wrapped_cost_functions(pulse)
        e = ENV.begin('cost', pulse, self)
        v = super().wrapped_cost_functions(pulse)
        ENV.end(e, v)
        return v

    def wrapped_jac_function(self, pulse=None):
        if ENV is None:
            return super().wrapped_jac_function(pulse)
        e = ENV.begin('grad', pulse, self)
        v = super().wrapped_jac_function(pulse)
        ENV.end(e, v)
        return v


def build_sim(s, stats=None, quiet=False, recording=True):
    """A simulator with probe costs.  s: {'nt','nc','tf','amp','costs','stats'}"""
    D = matrix.DenseOperator
    nc = s['nc']
    tf = models.build_tf(s['tf']) if s.get('tf') else None
    solver = solver_algorithms.SchroedingerSolver(
        h_drift=share([D(models.herm(s['ops'] + 50, 2))]),
        h_ctrl=share([D(models.herm(s['ops'] + i, 2)) for i in range(nc)]),
        tau=share(np.full(s['nt'], .5)), transfer_function=tf,
        amplitude_function=models.build_amp(s.get('amp')))
    specs = s['costs']
    if quiet:
        specs = [dict(c, dc=None, dg=None, script=None, gscript=None) for c in specs]
    costs = [ProbeCost(solver, c, i) for i, c in enumerate(specs)]
    cls = RecordingSimulator if recording else simulator.Simulator
    return cls(solvers=[solver], cost_funcs=costs,
               record_performance_statistics=s['stats'] if stats is None else stats,
               numeric_jacobian=bool(s.get('numjac')))


def n_out(s):
    return sum(c['n'] for c in s['costs'])


def bounds_of(a, s):
    """The bounds of an annealer, in one of the accepted forms."""
    r = models.rs(a['s'])
    shape = (s['nt'], s['nc'])
    lo, hi = r.randint(-6, 0, shape), r.randint(0, 7, shape)
    if a['frac']:
        lo, hi = lo - .25, hi + .5
    lo, hi = lo + a.get('shift', 0), hi + a.get('shift', 0)
    if a['bform'] == 'list':
        return [lo, hi]
    if a['bform'] == 'tuple':
        return lo, hi
    return np.array([lo, hi])


def param_bounds(seed, n):
    """Bounds of every entry of the flattened (control by time) parameters."""
    r = models.rs(seed)
    lo = -np.round(r.uniform(.05, 2.5, n), 2)
    hi = np.round(r.uniform(.05, 2.5, n), 2)
    for b in (lo, hi):
        if r.uniform() < .3:
            b[r.randint(n)] *= np.inf
    return lo, hi


def build_opt(o, s, sim):
    tc = {'max_wall_time': o['maxwall'] * UNIT if o.get('maxwall') is not None else 1e9,
          'max_iterations': o.get('maxiter', 8)}
    tc.update(o.get('tc') or {})
    for k in o.get('tcdrop') or ():
        tc.pop(k, None)
    if o.get('notc'):
        tc = None
    w = o.get('weights')
    w = None if w is None else [w[i % len(w)] for i in range(n_out(s))]
    if w is not None and o.get('warr'):
        w = np.array(w)
    tc, w = share(tc), share(w)
    n = s['nt'] * s['nc']
    b = o.get('bounds')
    if o['o'] == 'sa' and 'sa' in o:
        a = o['sa']
        return optimize.SimulatedAnnealing(
            system_simulator=sim, bounds=share(bounds_of(a, s)),
            store_optimizer=o.get('store', False), initial_temperature=a['tmax'],
            final_temperature=a['tmin'], step_size=a['step'], step_ratio=a['ratio'],
            steps=a['steps'], updates=a['updates'])
    if o['o'] == 'sa':
        return optimize.SimulatedAnnealing(
            system_simulator=sim,
            bounds=share([np.full((s['nt'], s['nc']), -5), np.full((s['nt'], s['nc']), 5)]),
            store_optimizer=o.get('store', False), initial_temperature=1.,
            final_temperature=1e-2, step_size=o.get('step', 2), step_ratio=.7,
            steps=o.get('maxiter', 8), updates=0)
    kw = dict(system_simulator=sim, termination_cond=tc,
              save_intermediary_steps=o.get('save', True), method=o['method'],
              use_jacobian_function=o.get('usejac', True), cost_func_weights=w,
              store_optimizer=o.get('store', False))
    if o.get('pbounds') is not None:
        lo, hi = param_bounds(o['pbounds'], n)
        kw['bounds'] = share([lo, hi] if o['o'] == 'ls' else
                             [(float(x), float(y)) for x, y in zip(lo, hi)])
    elif o['o'] == 'ls':
        if b:
            kw['bounds'] = share((-b, b) if o['bform'] == 0
                                 else [np.full(n, -b), np.full(n, b)])
    if o['o'] == 'ls':
        return optimize.LeastSquaresOptimizer(**kw)
    if b and o.get('pbounds') is None:
        kw['bounds'] = share([(-b, b)] * n)
    return optimize.ScalarMinimizingOptimizer(**kw)


# ------------------------------------------------------------------ drivers
def hostile_x(mode, x, buf):
    if mode == 'buffer':
        buf[:] = x
        return buf
    if mode == 'strided':
        return np.repeat(x, 2)[::2]
    if mode == 'ro':
        y = np.array(x)
        y.flags.writeable = False
        return y
    return np.array(x)


class Driver:
    """Stands where scipy.optimize.minimize / least_squares stands."""

    def __init__(self, spec, lab, shape):
        self.spec, self.lab, self.shape = spec, lab, shape
        self.result = None
        self.raised = None      # what the cost function raised at the driver
        self.n_fun = 0
        self.calls = 0

    def __call__(self, kind, real, args, kwargs):
        self.calls += 1
        b = inspect.signature(real).bind(*args, **kwargs)
        a = dict(b.arguments)
        kw = a.pop('kwargs', {}) if 'kwargs' in a and not callable(a['kwargs']) else {}
        a.update(kw)
        self.kind = kind
        self.args = {k: copy.deepcopy(v) for k, v in a.items()
                     if k not in ('fun', 'jac', 'x0', 'args')}
        self.has_jac = callable(a.get('jac'))
        self.asked = []
        self.x0 = np.array(a['x0'], float)
        self.buf = np.array(self.x0)
        fun = self.wrap(a['fun'], True)
        jac = a.get('jac')
        if callable(jac):
            jac = self.wrap(jac, False)
        try:
            if self.spec['d'] == 'real':
                a['fun'], = (fun,)
                if 'jac' in a:
                    a['jac'] = jac
                r = real(**a)
            else:
                r = self.fake(fun, jac if callable(jac) else None)
        finally:
            self.buf[:] = -4711.
        self.result = {k: copy.deepcopy(r.get(k)) for k in
                       ('x', 'fun', 'jac', 'grad', 'nfev', 'message', 'status')}
        return r

    def wrap(self, f, is_fun):
        mode = self.spec.get('x', 'copy')
        scribble = self.spec.get('scribble')
        wait = self.spec.get('wait') or [0]

        def g(x, *rest):
            self.lab.driver_wait(wait[self.n_fun % len(wait)])
            if is_fun:
                self.n_fun += 1
                if self.n_fun > 3000:
                    raise Violation('no-progress', 'the driver went on for ever')
            given = hostile_x(mode, np.asarray(x, float), self.buf)
            x = np.array(x, float)
            try:
                v = f(given, *rest)
                self.asked.append((is_fun, x, np.array(v)))
            except BaseException as e:
                self.raised = e
                raise
            finally:
                if mode == 'buffer':
                    self.buf[:] = 99. + self.n_fun
                elif mode in ('copy', 'strided'):
                    given[...] = -99.
            if isinstance(v, np.ndarray):
                out = np.array(v)
                if scribble and v.flags.writeable:
                    v[...] = 1234.5
                return out
            return v
        return g

    def fake(self, fun, jac):
        from scipy.optimize import OptimizeResult
        n = self.x0.size
        last = (self.x0, None, None)
        steps = self.spec['steps']
        for rep in range(self.spec.get('loop', 1)):
            for i, st in enumerate(steps):
                if st['k'] == 'raise':
                    raise RuntimeError('the driver gave up')
                x = self.x0 if st.get('p') is None else par(st['p'], (n, 1)).ravel()
                if rep and self.spec.get('drift'):
                    x = x + rep * self.spec['drift']
                v = g = None
                if st['k'] in ('f', 'fj', 'jf'):
                    if st['k'] == 'jf' and jac is not None:
                        g = jac(x)
                    v = fun(x)
                if st['k'] in ('fj', 'j') and jac is not None:
                    g = jac(x)
                if v is not None:
                    last = (x, v, g if g is not None else last[2])
        x, v, g = last
        if self.kind == 'least_squares':
            grad = np.zeros(n) if g is None else np.asarray(g).T @ np.asarray(v)
            return OptimizeResult(x=np.array(x), fun=v, jac=g, grad=grad,
                                  nfev=self.n_fun + self.spec.get('more', 0),
                                  status=self.spec.get('status', 1),
                                  message='fake driver %d' % self.n_fun, success=True,
                                  cost=0.)
        r = OptimizeResult(x=np.array(x), fun=v, nfev=self.n_fun + self.spec.get('more', 0),
                           status=self.spec.get('status', 1), nit=3,
                           message='fake driver %d' % self.n_fun, success=True)
        r['jac'] = np.zeros(n) if g is None else np.asarray(g)
        return r


# --------------------------------------------------------------- laboratory
class RunRecord:
    result = exc = fired = None
    driver = None


class Lab:
    def __init__(self, s, ctx):
        global ENV
        self.oracle = oracle_of(s)
        ENV = self
        self.s, self.ctx = s, ctx
        self.clock = ctx.clock
        self.sims = [build_sim(x) for x in s['sims']]
        self.opts = [build_opt(o, s['sims'][o['sim']], self.sims[o['sim']])
                     for o in s['opts']]
        self.log = []
        self.stack = []
        self.n_eval = 0
        self.wall = {int(k): v for k, v in (s.get('wall') or {}).items()}
        self.n_wall = 0
        self.sigint, self.n_start = None, 0

    # ---- called by the simulated parts
    def begin(self, kind, pulse, sim):
        e = {'kind': kind, 'y': np.array(pulse, float), 'nested': bool(self.stack),
             'mono': self.clock.mono, 'parts': [], 'value': None, 'done': False,
             'sim': self.sims.index(sim) if sim in self.sims else None}
        self.log.append(e)
        self.stack.append(e)
        self.ctx.ev('begin', kind, e['mono'])
        if kind == 'cost' and not e['nested']:
            self.n_eval += 1
        return e

    def end(self, e, value):
        e['value'] = np.array(value)
        e['done'] = True
        self.stack.pop()
        self.ctx.ev('end', e['kind'], self.clock.mono, e['value'].tolist())

    def enter_cost(self, index, n):
        if self.sigint is not None and self.sigint == (index, self.n_eval - self.n_start):
            self.sigint = None
            self.ctx.fault('sigint')
            signal.raise_signal(signal.SIGINT)
        step = self.wall.get(self.n_wall)
        self.n_wall += 1
        if step is not None:
            self.step_wall(step)

    def step_wall(self, step):
        if step:
            self.clock.step_wall(step * UNIT)
            self.ctx.fault('wall-clock-back' if step < 0 else 'wall-clock-ahead')

    def leave_cost(self, index, value, dt):
        if self.stack:
            self.stack[-1]['parts'].append((index, value, dt))

    def leave_grad(self, index, value, dt):
        if self.stack:
            self.stack[-1]['parts'].append((index, value, dt))

    def driver_wait(self, units):
        if units:
            self.clock.advance(units * UNIT)
            self.ctx.fault('driver-stall')

    def reference(self, rr, y):
        """(costs [c], gradient [t, k, c]) at y of a newly built simulator."""
        return self.outside(reference_answers, dict(rr.s, numjac=False), np.array(y))

    def outside(self, fn, *args):
        """fn without any connection to this laboratory"""
        global ENV
        ENV = None
        clock, seams.WORLD.clock = seams.WORLD.clock, seams.Clock()
        try:
            return self.oracle(fn, *args)
        finally:
            ENV = self
            seams.WORLD.clock = clock

    @staticmethod
    def sa_pulse(a, s, r):
        """An initial pulse within the bounds of an annealer."""
        lo, hi = (np.asarray(b, float) for b in bounds_of(a, s))
        p = np.clip(np.round(par(r['p'], lo.shape) * 2, 2), lo, hi)
        if r['start'] == 'low':
            p = lo
        elif r['start'] == 'high':
            p = hi
        elif r['start'] != 'any':
            p = np.clip(np.round(p), np.ceil(lo), np.floor(hi))
        if r['start'] == 'int':
            p = p.astype(int)
        return p.copy()

    # ---- one optimisation
    def run(self, i, r):
        o = self.s['opts'][r['opt']]
        s = self.s['sims'][o['sim']]
        opt = self.opts[r['opt']]
        rr = RunRecord()
        rr.spec, rr.o, rr.s, rr.opt, rr.sim = r, o, s, opt, self.sims[o['sim']]
        shape = (s['nt'], s['nc'])
        pulse = par(r['p'], shape)
        if o['o'] == 'sa' and 'sa' in o:
            pulse = self.sa_pulse(o['sa'], s, r)
        elif o['o'] == 'sa':
            pulse = np.round(pulse)
        if o.get('pbounds') is not None:
            lo, hi = (b.reshape(shape[::-1]).T for b in param_bounds(
                o['pbounds'], pulse.size))
            # (trf needs a start inside the bounds)
            pulse = np.clip(pulse, lo + .02, hi - .02)
        if r.get('forder'):
            pulse = np.asfortranarray(pulse)
        pulse = share(pulse)
        rr.init = np.array(pulse)
        rr.driver = Driver(r['driver'], self, shape) if o['o'] != 'sa' else None
        self.clock.advance(r.get('gap', 0) * UNIT)
        n0 = len(self.log)
        rr.start = (self.clock.mono, self.clock.wall, self.clock.perf)
        self.stack = []
        seams.WORLD.driver = rr.driver
        FP.reset(self.ctx)
        FP.arm(r.get('f'))
        self.n_start = self.n_eval
        self.sigint = (0, r['sigint']) if r.get('sigint') else None
        self.ctx.ev('run', i, r['opt'])
        try:
            rr.result = opt.run_optimization(pulse)
        except Violation:
            raise
        except BaseException as e:
            rr.exc = e
        finally:
            rr.fired = FP.disarm()
            seams.WORLD.driver = None
        rr.end = (self.clock.mono, self.clock.wall, self.clock.perf)
        rr.pulse = pulse
        rr.log = self.log[n0:]
        rr.costs = [e for e in rr.log if e['kind'] == 'cost' and not e['nested'] and e['done']]
        rr.grads = [e for e in rr.log if e['kind'] == 'grad' and not e['nested'] and e['done']]
        rr.aborted = rr.result is not None and (
            'Wall Time' in str(rr.result.termination_reason))
        self.ctx.ev('ran', None if rr.exc is None else type(rr.exc).__name__,
                    len(rr.costs), len(rr.grads), rr.end[0])
        if rr.exc is not None and self.unexpected(rr):
            raise Violation('unexpected-exception:%s' % type(rr.exc).__name__,
                            '%r\n%s' % (rr.exc, short_tb(rr.exc)))
        if rr.aborted:
            self.ctx.probe('aborted')
        elif rr.result is not None:
            self.ctx.probe('ended-normally')
        if rr.exc is not None:
            self.ctx.probe('run-failed')
        for probe in ('method:%s' % o.get('method', 'sa'), 'driver:' + (
                r['driver']['d'] if rr.driver else 'sa')):
            self.ctx.probe(probe)
        self.ctx.state(o['o'], o.get('method'), o.get('usejac'), rr.aborted,
                       type(rr.exc).__name__, min(len(rr.costs), 6), min(len(rr.grads), 6),
                       i, bool(rr.fired), bool(o.get('weights')))
        return rr

    def unexpected(self, rr):
        """Is the exception a failure of the code under test?"""
        e = rr.exc
        if rr.fired is not None:
            return False
        if isinstance(e, optimize.WallTimeExceeded):
            return True
        if rr.driver is None:
            return True
        d = rr.driver
        if d.raised is not None:
            # the exception came out of the cost function, without injection
            return True
        if d.spec['d'] == 'fake':
            return not (isinstance(e, RuntimeError) and 'gave up' in str(e))
        # scipy refuses unusable numbers or combinations of options
        return not isinstance(e, ValueError)

    def reference_gradient(self, rr, y):
        """[t, k, c] at y, by a newly built simulator without any history."""
        return self.outside(reference_gradient, rr.s, np.array(y))


def reference_answers(spec, y):
    return (np.array(build_sim(spec, stats=False, quiet=True, recording=False)
                     .wrapped_cost_functions(np.array(y))), reference_gradient(spec, y))


def reference_gradient(spec, y):
    return np.array(build_sim(spec, stats=False, quiet=True, recording=False)
                    .wrapped_jac_function(np.array(y)))


def close():
    global ENV
    ENV = None


def expected_costs(e):
    """The values the cost functions really returned in evaluation e."""
    parts = sorted(e['parts'], key=lambda p: p[0])
    return np.concatenate([np.atleast_1d(p[1]) for p in parts])


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(
        a, b, equal_nan=a.dtype.kind in 'fc' and b.dtype.kind in 'fc')


# -------------------------------------------------------------- generation
SC_METHODS = ((5, 'L-BFGS-B'), (3, 'Nelder-Mead'), (1, 'BFGS'), (1, 'Powell'), (1, 'CG'),
              (.7, 'COBYLA'), (.7, 'SLSQP'), (.7, 'TNC'), (.4, 'trust-constr'))


def gen_cost(R, focus):
    c = {'n': R.weighted((3, 1), (2, 2), (1, 3)), 's': R.seed32() % 10 ** 8}
    c['dc'] = [R.weighted((2, 0), (6, R.int(1, 64)), (1, R.int(200, 2000)))
               for _ in range(R.int(1, 4))]
    c['dg'] = [R.weighted((2, 0), (6, R.int(1, 64)), (1, R.int(200, 1500)))
               for _ in range(R.int(1, 3))]
    if c['n'] == 1:
        c['scalar'] = R.chance(.4)
        c['flat'] = R.chance(.4)
    c['buf'] = R.chance(.4)
    c['pos'] = R.chance(.3)
    return c


def gen_sim(R, focus):
    wild_values = R.chance(.45)
    s = {'nt': R.int(1, 3), 'nc': R.int(1, 2), 'ops': R.seed32() % 10 ** 6,
         'stats': R.chance(.75), 'costs': [gen_cost(R, focus) for _ in range(R.int(1, 3))]}
    if R.chance(.25):
        s['tf'] = R.pick({'t': 'over', 'n': s['nc'], 'k': 2, 'b': None},
                         {'t': 'scale', 'n': s['nc'], 'f': .5})
    if focus in ('C07', 'C08') and R.chance(.1):
        s['numjac'] = True
    if focus in ('C08', 'C07', 'C06') and R.chance(.5):
        for c in s['costs']:
            if R.chance(.6):
                c['script'] = {str(R.int(0, 12)): [
                    R.weighted((3 * wild_values, 'nan'), (3 * wild_values, 'inf'),
                               (wild_values, '-inf'), (2, 0.),
                               (3, round(R.uniform(-3, 3), 2))) for _ in range(c['n'])]
                    for _ in range(R.int(1, 5))}
    return s


def gen_opt(R, focus, nsims, sims):
    o = {'sim': R.int(0, nsims - 1), 'o': R.pick('ls', 'sc')}
    s = sims[o['sim']]
    o['method'] = (R.weighted((4, 'trf'), (2, 'dogbox'), (1, 'lm')) if o['o'] == 'ls'
                   else R.weighted(*SC_METHODS))
    if o['method'] == 'lm' and n_out(s) < s['nt'] * s['nc']:
        o['method'] = 'trf'
    o['usejac'] = R.chance(.75)
    o['save'] = True if focus == 'C07' else R.chance(.7)
    o['store'] = R.chance(.2)
    if R.chance(.5):
        o['weights'] = [R.pick(.5, 2., 1., 10., 0., .125) for _ in range(R.int(1, 3))]
        o['warr'] = R.chance(.5)
    if R.chance(.2) and o['method'] in ('trf', 'dogbox', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP'):
        o['bounds'] = R.pick(7., 20.)
        o['bform'] = R.int(0, 1)
    mean = {'C06': .9, 'C08': .6, 'C07': .35, 'C14': .35, 'C05': .3}[focus]
    if R.chance(mean) or o['method'] not in ('trf', 'dogbox', 'lm', 'L-BFGS-B', 'Nelder-Mead'):
        o['maxwall'] = R.weighted((1, 0), (5, R.int(1, 100)), (5, R.int(50, 1200)),
                                  (2, R.int(500, 4000)))
        if o['method'] not in ('trf', 'dogbox', 'lm', 'L-BFGS-B', 'Nelder-Mead'):
            for c in s['costs']:
                c['dc'] = [max(d, 8) for d in c['dc']]
    o['maxiter'] = R.int(2, 10)
    return o


def wild(s):
    """Does a simulation return values that are no numbers?"""
    return any(isinstance(v, str) for c in s['costs']
               for vs in (c.get('script') or {}).values() for v in vs)


def gen_driver(R, focus, nsteps, seeds, real):
    d = {'x': R.pick('copy', 'buffer', 'strided', 'ro'), 'scribble': R.chance(.6)}
    if R.chance(.35):
        d['wait'] = [R.pick(0, 0, 1, 5, 40, 700) for _ in range(R.int(1, 4))]
    if R.chance(.45) and real:
        d['d'] = 'real'
        return d
    d['d'] = 'fake'
    d['steps'] = []
    for _ in range(R.int(1, nsteps)):
        d['steps'].append({'k': R.weighted((5, 'f'), (3, 'fj'), (1, 'jf'), (2, 'j')),
                           'p': None if R.chance(.1) else models.gen_par(R, seeds)})
    if R.chance(.08):
        d['steps'].append({'k': 'raise'})
    if not any(x['k'] in ('f', 'fj', 'jf') for x in d['steps']):
        d['steps'][0]['k'] = 'f'
    if R.chance(.3):
        d['loop'] = R.int(2, 6)
    elif R.chance(.03):
        d['loop'] = R.int(60, 300)      # a long record
        d['drift'] = R.pick(0., 1e-3, 1e-7)
    d['status'] = R.int(0, 4)
    d['more'] = R.pick(0, 0, 3)
    return d


def gen(R, tier, focus, runs=(1, 4), nsteps=8):
    sims = [gen_sim(R, focus) for _ in range(R.weighted((4, 1), (1, 2)))]
    opts = [gen_opt(R, focus, len(sims), sims) for _ in range(R.weighted((3, 1), (2, 2)))]
    if focus == 'C14':
        for o in opts:
            if R.chance(.12):
                o.update(o='sa', method='sa', maxiter=R.int(1, 12), save=False)
    seeds = [R.seed32() for _ in range(3)]
    s = {'sims': sims, 'opts': opts, 'runs': []}
    for _ in range(R.int(*runs)):
        k = R.int(0, len(opts) - 1)
        r = {'opt': k, 'p': models.gen_par(R, seeds), 'gap': R.pick(0, 0, 10, 512),
             'forder': R.chance(.2),
             'driver': gen_driver(R, focus, nsteps, seeds,
                                  # (scipy may loop for ever on such values)
                                  not wild(sims[opts[k]['sim']]))}
        if R.chance(.25 if focus != 'C06' else .1):
            r['f'] = {'point': R.pick('cost', 'cost', 'cost-late', 'grad', 'grad-late'),
                      'nth': R.int(1, 8),
                      'exc': R.pick('ValueError', 'UserBug', 'KeyboardInterrupt',
                                    'MemoryError')}
        s['runs'].append(r)
    return s


def simplify(s):
    for i, r in enumerate(s['runs']):
        d = r['driver']
        if d['d'] == 'fake':
            if len(d['steps']) > 1:
                for k in range(len(d['steps'])):
                    nd = dict(d, steps=d['steps'][:k] + d['steps'][k + 1:])
                    yield dict(s, runs=s['runs'][:i] + [dict(r, driver=nd)] + s['runs'][i + 1:])
            if d.get('loop', 1) > 1:
                yield dict(s, runs=s['runs'][:i] + [dict(r, driver=dict(d, loop=1))]
                           + s['runs'][i + 1:])
        for key, v in (('x', 'copy'), ('scribble', False), ('wait', None)):
            if d.get(key) not in (v, None):
                yield dict(s, runs=s['runs'][:i] + [dict(r, driver=dict(d, **{key: v}))]
                           + s['runs'][i + 1:])
        for key in ('f', 'gap', 'forder'):
            if r.get(key):
                yield dict(s, runs=s['runs'][:i] + [dict(r, **{key: None if key == 'f' else 0})]
                           + s['runs'][i + 1:])
    if s.get('wall'):
        for k in s['wall']:
            yield dict(s, wall={a: b for a, b in s['wall'].items() if a != k})
    for i, x in enumerate(s['sims']):
        for key in ('tf', 'amp', 'numjac'):
            if x.get(key):
                yield dict(s, sims=s['sims'][:i] + [dict(x, **{key: None})] + s['sims'][i + 1:])
        if len(x['costs']) > 1:
            for k in range(len(x['costs'])):
                yield dict(s, sims=s['sims'][:i] + [dict(
                    x, costs=x['costs'][:k] + x['costs'][k + 1:])] + s['sims'][i + 1:])
        for k, c in enumerate(x['costs']):
            for key in ('script', 'buf', 'pos', 'scalar', 'flat'):
                if c.get(key):
                    nc = x['costs'][:k] + [dict(c, **{key: None})] + x['costs'][k + 1:]
                    yield dict(s, sims=s['sims'][:i] + [dict(x, costs=nc)] + s['sims'][i + 1:])
    for i, o in enumerate(s['opts']):
        for key in ('weights', 'bounds', 'store'):
            if o.get(key):
                yield dict(s, opts=s['opts'][:i] + [dict(o, **{key: None})] + s['opts'][i + 1:])


REAL = ['qopt optimizers, simulator, solver, transfer function', 'scipy.optimize '
        '(in the runs with driver:real)']
STUB = ['clocks (virtual)', "the user's cost functions (analytic, take virtual time, fail)",
        'scipy.optimize.minimize / least_squares in the runs with driver:fake (scripted)']
