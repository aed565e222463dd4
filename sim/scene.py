"""One simulation in a simulated noise environment, and an independent reference of it.

The reference is plain numpy and scipy: the documented transfer functions, the
amplitude functions of the user, the Schroedinger or Lindblad equation with the
noise that the environment delivered, and the documented definitions of the
costs.  The checks C17, C19 and C20 judge the answers of the simulation at
arbitrary moments of a seeded history with it.
"""
import numpy as np
import scipy.linalg

from . import models
from .faults import FP, reported
from .history import gen_fault
from .models import (LindCalls, Model, build_amp, gen_costs, gen_tf, herm, ketv, par,
                     plain, rs, tau_arr, tf_uses, unitary)

EPOCHS = ('uniform', 'uniform', 'uniform', 'zero', 'huge', 'spike', 'same', 'tiny', 'static',
          'palin', 'telegraph', 'antithetic', 'alike', 'kick')
QUERIES = ('propagators', 'forward_propagators', 'reversed_propagators',
           'frechet_deriv_propagators')
NOISY = tuple(q + '_noise' for q in QUERIES)


# ------------------------------------------------------------ environment
_ENV = None


def env_class():
    """The noise environment behind the interface of a noise generator: all draws
    of an epoch deliver the same traces (common random numbers)."""
    global _ENV
    if _ENV is None:
        class Environment(models.q().noise.NoiseTraceGenerator):
            def __init__(self, seed, size, redraw):
                super().__init__(n_samples_per_trace=size[2], n_noise_operators=size[0],
                                 n_traces=size[1], always_redraw_samples=redraw)
                self.seed, self.size, self.epoch = seed, size, (0, 'uniform')
                self.draws = 0

            def _sample_noise(self):
                FP.hit('noise-draw')
                self.draws += 1
                self._noise_samples = traces(self.seed, self.size, self.epoch)

            def turn(self, epoch):
                self.epoch = epoch
                self._noise_samples = None
        _ENV = Environment
    return _ENV


def traces(seed, size, epoch):
    n, kind = epoch
    x = np.round(rs(seed + 7919 * n).uniform(-1, 1, size), 3)
    if kind == 'zero':
        x *= 0.
    elif kind == 'huge':
        x *= 20.
    elif kind == 'tiny':
        x *= 1e-4
    elif kind == 'spike':
        y = np.zeros_like(x)
        y[:, :, n % size[2]] = 8. * x[:, :, n % size[2]]
        x = y
    elif kind == 'same':
        x[:] = x[:, :1]
    elif kind == 'static':
        x[:] = x[:, :, :1]
    elif kind == 'palin':          # ends as it began
        x = x + x[:, :, ::-1]
    elif kind == 'telegraph':
        x = .7 * np.sign(x)
    elif kind == 'antithetic':
        x[:, 1::2] = -x[:, :x.shape[1] - 1:2] if x.shape[1] % 2 else -x[:, ::2]
    elif kind == 'alike':          # all operators see the same noise
        x[:] = x[:1]
    elif kind == 'kick':           # in the last step only
        x[:, :, :-1] = 0.
    return x


# -------------------------------------------------------------- generation
def gen_scene_model(R, kinds, extended=True, max_nt=4):
    kind = R.pick(*kinds)
    if kind in ('mc', 'mcc'):
        m = models.gen_model(R, kinds=('schro',), max_nt=max_nt, ff=False, many=.07)
        m['kind'] = kind
    else:
        m = models.gen_model(R, kinds=(kind,), max_nt=max_nt, ff=False, many=.07)
    m.pop('grape', None)
    nc = m['nc']
    if extended:
        m['np'] = R.weighted((4, nc), (1, R.int(1, 3)))
    else:
        m['np'] = nc
    if m['np'] != nc:
        m['amp'] = {'t': 'rect', 's': R.seed32(), 'n': m['np'], 'm': nc}
        if m.get('tf'):
            m['tf'] = gen_tf(R, m['np'], custom_nt=m['nt'])
            if m['nt'] == 1 and tf_uses(m['tf'], 'exp'):
                m['tf'] = None
    if m.get('tf') and extended:
        vary(R, m['tf'])
    if kind == 'lind' and R.chance(.4):
        m['method'] = 'spectral'
    if kind != 'lind' and R.chance(.2):
        m['skew'] = False
    if m.get('tf') and SceneModel(m).num_x() > 16:
        m['tf'] = None
    if kind in ('mc', 'mcc'):
        m['noise'] = {'no': m['np'] if kind == 'mcc' else
                      R.weighted((12, R.int(1, 3)), (1, R.int(4, 6))),
                      'traces': R.weighted((20, R.int(1, 3)), (2, R.int(4, 9)),
                                           (.5, R.int(10, 40))),
                      's': R.seed32() % 10 ** 6,
                      'redraw': R.chance(.7), 'gen': 'env',
                      'ampf': R.pick(None, None, 'copy', 'inplace')
                      if kind == 'mc' else None}
    if kind == 'lind' and extended and R.chance(.15):
        m.update(dim=4, init='rho')
    m['costs'] = gen_costs(R, 'mc' if kind == 'mcc' else kind, m['dim'],
                           m['init'], None, 1, 3)
    if m['init'] == 'rho':
        m['costs'] = [{'t': 'statesub', 's': R.seed32(), 'rm': R.int(0, 1)}
                      for _ in range(R.int(1, 2))]
    for c in m['costs']:
        if c['t'] in ('state', 'statenoise', 'statesub'):
            c['ket'] = R.chance(.3)
            if c['t'] != 'statesub' and m['dim'] > 2 and R.chance(.5):
                c['comp'] = models.gen_subspace(R, m['dim'])
                c['rescale'] = R.chance(.5)
    if R.chance(.15):
        m['same'] = R.pick('degenerate', 'commuting', 'weak')
    return m


def vary(R, tf):
    """modes of convolutions"""
    if tf['t'] in ('conv', 'gauss') and R.chance(.5):
        tf['mode'] = R.pick('reflect', 'constant', 'nearest', 'mirror', 'wrap')
    if tf['t'] == 'gauss' and R.chance(.3):
        tf['sigma'] = R.pick(.2, 1.5)
    for k in ('a', 'c'):
        if isinstance(tf.get(k), dict):
            vary(R, tf[k])


def density(seed, dim):
    a, b = ketv(seed, dim), ketv(seed + 1, dim)
    return .7 * a @ a.conj().T + .3 * b @ b.conj().T


def vectorized(rho):
    return rho.reshape((-1, 1), order='F')


class _Rect:
    """u_i = sum_j M_ij x_j + .1 x_0 x_j, from n parameters to m amplitudes"""

    def __init__(self, seed, n, m):
        self.m = np.round(rs(seed).uniform(-1., 1., (m, n)), 2)

    def value(self, x):
        FP.hit('amp')
        return x @ self.m.T + .1 * x[:, :1] ** 2

    def deriv(self, x):
        FP.hit('amp-deriv')
        d = np.repeat(self.m.T[None], x.shape[0], axis=0)
        d[:, 0, :] += .2 * x[:, :1]
        return d


class SceneModel(Model):
    """with parameters that differ from the controls in number, special operators"""

    def __init__(self, spec):
        super().__init__(spec)
        self.shape = (self.nt, spec.get('np', self.nc))

    def amp(self):
        s = self.spec.get('amp')
        if s is not None and s['t'] == 'rect':
            f = _Rect(s['s'], s['n'], s['m'])
            return models.q().amplitude_functions.CustomAmpFunc(f.value, f.deriv)
        return build_amp(s)

    def plain_amp(self):
        s = self.spec.get('amp')
        if s is not None and s['t'] == 'rect':
            return _Rect(s['s'], s['n'], s['m']).value
        return models.plain_amp(s)

    # operators as arrays
    def ctrl(self, i):
        k, d = self.spec['ops'], self.dim
        same = self.spec.get('same')
        o = herm(k + i, d)
        if same == 'commuting':
            o = np.diag(np.diag(o)).astype(complex)
        elif same == 'degenerate':
            o = np.zeros((d, d), complex)
            o[0, d - 1] = o[d - 1, 0] = 1. + i
        elif same == 'weak':
            o = 1e-3 * o
        if self.spec.get('ff'):     # required of gradients of filter functions
            o = o - np.trace(o) / d * np.eye(d)
        return o

    def drift(self, t, num_x):
        k, d = self.spec['ops'], self.dim
        kind = self.spec.get('drift', 'one')
        same = self.spec.get('same')
        o = herm(k + 50 + (t if kind == 'per' else 0), d)
        if kind == 'none':
            return np.zeros((d, d), complex)
        if same == 'commuting':
            o = np.diag(np.diag(o)).astype(complex)
        elif same == 'degenerate':
            o = np.eye(d, dtype=complex)
        return o

    def noise_opers(self):
        if self.spec['kind'] == 'mcc':
            return [self.ctrl(i) for i in range(self.nc)]
        return [herm(self.spec['ops'] + 200 + i, self.dim)
                for i in range(self.spec['noise']['no'])]

    def build(self):
        s = self.spec
        D = models.q().matrix.DenseOperator
        n = self.num_x()
        extra = {'h_ctrl': [D(self.ctrl(i)) for i in range(self.nc)],
                 'amplitude_function': self.amp()}
        drift = s.get('drift', 'one')
        if drift != 'none':
            extra['h_drift'] = [D(self.drift(t, n)) for t in range(n if drift == 'per' else 1)]
        if s.get('init') == 'rho':
            extra['initial_state'] = D(vectorized(density(s['ops'] + 90, self.dim)))
        env = None
        if s['kind'] in ('mc', 'mcc'):
            no = s['noise']
            env = env_class()(no['s'], (no['no'], no['traces'], n), no['redraw'])
            extra['noise_trace_generator'] = env
        return self.solver(extra), env


# --------------------------------------------------- reference: transfer
PADS = {'nearest': 'edge', 'reflect': 'symmetric', 'mirror': 'reflect', 'wrap': 'wrap',
        'constant': 'constant'}


def ref_tf(s, y, dt):
    """-> transferred parameters, durations"""
    t = s['t']
    y, dt = np.array(y, float), np.array(dt, float)
    if t == 'id':
        return y, dt
    if t == 'scale':
        return s['f'] * y, dt
    if t in ('over', 'mover', 'exp'):
        k, b = s['k'], s.get('b')
        lead, tail = 0, 0
        if b is not None:
            lead, tail = {'n': (b[1], b[1]), 'x': (k * b[1], k * b[1]),
                          'right_n': (0, b[1])}[b[0]]
        x, d = [np.zeros(y.shape[1])] * lead, [dt[0] / k] * lead
        if t == 'exp':
            f = [np.exp(-(j + 1) * dt[0] / k / s['rise']) for j in range(max(tail, k))]
        for i in range(len(y)):
            for j in range(k):
                if t == 'exp':
                    old = y[i - 1] if i else 0. * y[0]
                    x.append(old * f[j] + y[i] * (1. - f[j]))
                else:
                    x.append(y[i])
                d.append(dt[i] / k)
        for j in range(tail):
            x.append(y[-1] * f[j] if t == 'exp' else 0. * y[-1])
            d.append(dt[-1] / k)
        return np.array(x) + (s.get('off') or 0.), np.array(d)
    if t in ('conv', 'gauss'):
        if t == 'conv':
            w = np.array(s['kernel'], float)
        else:
            r = int(4. * s['sigma'] + .5)
            w = np.exp(-.5 * (np.arange(-r, r + 1) / s['sigma']) ** 2)
            w /= np.sum(w)
        r = len(w) // 2
        mode = s.get('mode', 'nearest')
        out = np.empty_like(y)
        for c in range(y.shape[1]):
            p = padded(y[:, c], r, mode)
            for i in range(len(y)):
                out[i, c] = sum(w[j] * p[i + 2 * r - j] for j in range(2 * r + 1))
        return out, dt
    if t == 'custom':
        n = s.get('n', 1)
        m = np.round(rs(s['s']).uniform(-1, 1, (s['x'], s['y'], n)), 3)
        x = np.zeros((s['x'], n))
        for c in range(n):
            x[:, c] = m[:, :, c] @ y[:, c]
        k = s['x'] // s['y']
        return x + (s.get('off') or 0.), np.repeat(dt, k) / k
    if t in ('cat', 'mcat'):
        return ref_tf(s['c'], *ref_tf(s['a'], y, dt))
    if t in ('par', 'mpar'):
        n = width(s['a'])
        a, da = ref_tf(s['a'], y[:, :n], dt)
        b, _ = ref_tf(s['c'], y[:, n:], dt)
        return np.concatenate((a, b), axis=1), da
    raise ValueError(t)


def padded(v, r, mode):
    if len(v) == 1 and mode == 'mirror':
        return np.full(2 * r + 1, v[0])
    return np.pad(v, r, mode=PADS[mode])


def width(s):
    if s['t'] in ('cat', 'mcat'):
        return width(s['a'])
    if s['t'] in ('par', 'mpar'):
        return width(s['a']) + width(s['c'])
    return s.get('n', 1)


# --------------------------------------------------- reference: dynamics
class Ref:
    """The solution of the dynamics at one point."""

    def __init__(self, model, y, tau, epoch=None):
        s = model.spec
        self.m, self.s, self.d = model, s, model.dim
        self.y = np.array(y)
        dt = tau_arr(tau, model.nt)
        self.x, self.dt = ref_tf(s['tf'], y, dt) if s.get('tf') else (self.y.copy(), dt)
        self.amp = model.plain_amp()
        self.u = np.array(self.amp(self.x.copy()))
        self.n = len(self.dt)
        self.hc = [model.ctrl(i) for i in range(model.nc)]
        self.h = [model.drift(t, self.n) + sum(self.u[t, c] * self.hc[c]
                                               for c in range(model.nc))
                  for t in range(self.n)]
        self.noise = None
        if epoch is not None:
            self.add_noise(epoch)

    def add_noise(self, epoch):
        s, m = self.s, self.m
        no = s['noise']
        v = traces(no['s'], (no['no'], no['traces'], self.n), epoch)
        v = np.transpose(v, (2, 1, 0))
        if s['kind'] == 'mcc':
            v = np.stack([self.amp(self.x + v[:, k]) - self.u for k in range(v.shape[1])],
                         axis=1)
        elif no.get('ampf'):
            v = models._NoiseAmp('copy')(np.array(v), self.y.copy(), self.x.copy(),
                                         self.u.copy())
        self.noise = v
        ops = m.noise_opers()
        self.hn = [[self.h[t] + sum(v[t, k, i] * ops[i] for i in range(len(ops)))
                    for t in range(self.n)] for k in range(v.shape[1])]

    def generator(self, t, h):
        if self.s['kind'] != 'lind':
            return -1j * h
        e = np.eye(self.d)
        return -1j * (np.kron(e, h) - np.kron(h.T, e)) + self.dissipator(t)

    def dissipator(self, t):
        l = self.s['lind']
        c = self.lind()
        if l['form'] in ('ops', 'initial'):
            return sum(c.sup)
        p = c.c + c.w @ self.u[t] ** 2
        return sum(p[i] * c.sup[i] for i in range(c.nl))

    def lind(self):
        if not hasattr(self, '_lind'):
            self._lind = LindCalls(self.s['lind'], self.d, self.m.nc)
        return self._lind

    def direction(self, t, c):
        if self.s['kind'] != 'lind':
            return -1j * self.hc[c]
        e = np.eye(self.d)
        g = -1j * (np.kron(e, self.hc[c]) - np.kron(self.hc[c].T, e))
        l = self.s['lind']
        if l['form'] not in ('ops', 'initial') and not l.get('nograd'):
            i = self.lind()
            g = g + sum(2 * self.u[t, c] * i.w[k, c] * i.sup[k] for k in range(i.nl))
        return g

    def start(self):
        s = self.s
        if s.get('init') == 'ket':
            return ketv(s['ops'] + 90, self.d)
        if s.get('init') == 'rho':
            return vectorized(density(s['ops'] + 90, self.d))
        return np.eye(self.d ** 2 if s['kind'] == 'lind' else self.d, dtype=complex)

    def hams(self, trace=None):
        return self.h if trace is None else self.hn[trace]

    def propagators(self, trace=None):
        h = self.hams(trace)
        return [models.exponential(self.dt[t] * self.generator(t, h[t]), self.s.get('method'))
                for t in range(self.n)]

    def forward_propagators(self, trace=None):
        out = [self.start()]
        for p in self.propagators(trace):
            out.append(p @ out[-1])
        return out

    def reversed_propagators(self, trace=None):
        ps = self.propagators(trace)
        out = [np.eye(len(ps[0]), dtype=complex)]
        for p in ps[::-1]:
            out.append(out[-1] @ p)
        return out

    def frechet_deriv_propagators(self, trace=None):
        h = self.hams(trace)
        return [[models.frechet(self.dt[t] * self.generator(t, h[t]),
                                self.dt[t] * self.direction(t, c), self.s.get('method'))
                 for t in range(self.n)] for c in range(self.m.nc)]

    def ask(self, what):
        if what.endswith('_noise'):
            f = getattr(self, what[:-6])
            return np.array([f(k) for k in range(len(self.hn))])
        return np.array(getattr(self, what)())

    # ---- costs, by their definitions
    def final(self, trace=None):
        return self.forward_propagators(trace)[-1]

    def cost(self, c):
        t = c['t']
        d = self.d
        comp = list(c['comp']) if c.get('comp') else list(range(d))
        n = len(comp)

        def sub(u):
            v = u[np.ix_(comp, comp)] if c.get('comp') else u
            return scipy.linalg.polar(v)[0] if c.get('closest') and c.get('comp') else v

        def supersub(v):
            e = np.zeros((d, d), complex)
            for a, i in enumerate(comp):
                for b, j in enumerate(comp):
                    e[i, j] = v[a, b]
            return e

        def bra(v):
            return v.conj().T

        def infid(target, v):
            return 1. - abs(np.trace(bra(target) @ v)) ** 2 / n ** 2
        if t == 'op':
            return infid(unitary(c['s'], n), sub(self.final()))
        if t in ('opsup', 'mcliou'):
            s = self.final() if t == 'opsup' else self.mean_channel()
            k = supersub(unitary(c['s'], n))
            # tr(P (T^+ . T)) restricted to the computational states
            return 1. - np.trace(np.kron(k.conj(), k).conj().T @ s).real / n ** 2
        if t == 'state':
            v = self.final()
            target = ketv(c['s'], len(comp))
            if c.get('comp'):
                v = v[comp]
                if c.get('rescale'):
                    v = v / np.linalg.norm(v)
            return 1. - abs((bra(target) @ v)[0, 0]) ** 2
        if t == 'statesub':
            v = self.final()
            r = v @ v.conj().T if len(v) == d else v.reshape((d, d), order='F')
            rho = np.einsum('abcb->ac' if c.get('rm', 1) == 1 else 'babc->ac',
                            r.reshape(2, 2, 2, 2))
            target = ketv(c['s'], 2)
            return 1. - (bra(target) @ rho @ target)[0, 0].real
        if t == 'leak':
            v = self.final()[np.ix_(comp, comp)]
            return 1. - np.sum(np.abs(v) ** 2) / n
        if t == 'incleak':
            return np.mean([1. - np.sum(np.abs(self.final(k)[np.ix_(comp, comp)]) ** 2) / n
                            for k in range(len(self.hn))])
        if t == 'leakliou':
            s = (self.mean_channel() if c.get('mc') else self.final()
                 if self.s['kind'] == 'lind' else np.kron(self.final().conj(), self.final()))
            p = np.zeros((d, d))
            for i in comp:
                p[i, i] = 1.
            rho = (s @ p.reshape(-1, order='F')).reshape((d, d), order='F')
            return np.array([np.trace((np.eye(d) - p) @ rho).real / n])
        if t == 'opnoise':
            target = sub(self.final()) if c['negl'] else unitary(c['s'], n)
            return np.mean([infid(target, sub(self.final(k))) for k in range(len(self.hn))])
        if t == 'statenoise':
            def cut(v):
                if c.get('comp'):
                    v = v[comp]
                    if c.get('rescale'):
                        v = v / np.linalg.norm(v)
                return v
            target = cut(self.final()) if c['negl'] else ketv(c['s'], n)
            return np.mean([1. - abs((bra(target) @ cut(self.final(k)))[0, 0]) ** 2
                            for k in range(len(self.hn))])
        if t == 'user':
            return None
        raise ValueError(t)

    def mean_channel(self):
        return np.mean([np.kron(self.final(k).conj(), self.final(k))
                        for k in range(len(self.hn))], axis=0)


# ----------------------------------------------------------------- scene
class Scene:
    def __init__(self, s, ctx):
        self.s, self.ctx = s, ctx
        FP.reset(ctx)
        self.spec = s['model']
        self.model = SceneModel(self.spec)
        self.tau = self.spec['tau']
        self.epoch = (0, s.get('epoch', 'uniform'))
        self.solver, self.env = ctx.call('build', self.model.build)
        if self.env is not None:
            self.env.turn(self.epoch)
        self.costs = self.make_costs(self.solver)
        self.sim = models.q().simulator.Simulator([self.solver], self.costs,
                                                  **s.get('sim', {}))
        self.known = self.failed = False
        self.since = []
        self.points = set()

    def make_costs(self, solver):
        return [self.model.cost(c, solver) for c in self.spec['costs']]

    def fresh(self):
        """a newly built simulation in the same environment"""
        m = SceneModel(dict(self.spec, tau=self.tau))
        solver, env = m.build()
        if env is not None:
            env.turn(self.epoch)
        return models.q().simulator.Simulator([solver], self.make_costs(solver))

    def attempt(self, op, fn):
        FP.arm(op.get('f'))
        try:
            v = fn()
        except BaseException as e:
            fired = FP.disarm()
            if fired is None or not reported(fired, e):
                raise
            self.failed = True
            self.ctx.ev('failed', type(e).__name__)
            return False, None
        if FP.disarm() is not None:
            self.failed = True
        return True, v

    def run(self):
        for n, op in enumerate(self.s['ops']):
            self.ctx.ev(op['o'], n, op.get('w'), (op.get('f') or {}).get('point'),
                        self.spec['kind'], (self.spec.get('tf') or {}).get('t'),
                        op.get('how'))
            getattr(self, 'op_' + op['o'])(op)
        return self

    def point(self, op):
        return par(op['p'], self.model.shape)

    def op_set(self, op):
        y = self.point(op)
        self.known, _ = self.attempt(
            op, lambda: self.solver.set_optimization_parameters(y.copy()))
        self.since.append('set')

    def op_time(self, op):
        t = tau_arr(op['t'], self.model.nt)
        if not self.attempt(op, lambda: self.solver.set_times(t.copy()))[0]:
            self.known = False
        self.solver.set_times(t.copy())
        self.tau = op['t']
        self.since.append('time')
        self.ctx.probe('retimed')

    def op_noise(self, op):
        """The environment turns to other traces (for later points)."""
        if self.env is None:
            return
        self.epoch = (op['e'], op['k'])
        self.env.turn(self.epoch)
        self.solver.reset_cached_propagators()
        self.since.append('noise')
        self.ctx.probe('noise-' + op['k'])

    def op_query(self, op):
        if not self.known:
            return
        w = op['w']
        if w.endswith('_noise') and self.env is None:
            w = w[:-6]
        self.attempt(op, lambda: getattr(self.solver, w))
        self.since.append(w)

    def op_cost(self, op):
        y = self.point(op)
        self.known, _ = self.attempt(op, lambda: self.sim.wrapped_cost_functions(y.copy()))
        self.since.append('cost')

    def op_jac(self, op):
        y = self.point(op)
        # (gradients of density matrices are not supported)
        if all(self.model.has_grad(c) for c in self.spec['costs']) and \
                self.spec['init'] != 'rho':
            self.known, _ = self.attempt(op, lambda: self.sim.wrapped_jac_function(y.copy()))
            self.since.append('jac')

    def ref(self, y):
        return Ref(self.model, y, self.tau, self.epoch if self.env is not None else None)

    def judged(self, y):
        """bookkeeping after an answer was judged"""
        ctx = self.ctx
        if self.failed:
            ctx.probe('after-failure')
        if self.spec.get('tf'):
            ctx.probe('transfer-function')
        if self.spec['np'] != self.spec['nc']:
            ctx.probe('rectangular-amplitudes')
        if self.spec.get('same'):
            ctx.probe('operators-' + self.spec['same'])
        ctx.probe('kind-' + self.spec['kind'])
        ctx.state(self.spec['kind'], (self.spec.get('tf') or {}).get('t'),
                  (self.spec.get('amp') or {}).get('t'), self.spec.get('method'),
                  self.epoch[1], self.since[-2:], [c['t'] for c in self.spec['costs']])
        self.points.add(y.tobytes())
        self.since = []
        self.failed = False


def gen_ops(R, model, make, n, rate):
    """A history with judgements (made by `make()`) in between."""
    seeds = [R.seed32() for _ in range(3)]
    ops = [dict(make(), p={'s': seeds[0]})] if R.chance(.4) else []
    for _ in range(n):
        o = R.weighted((4, 'judge'), (1.2, 'set'), (1, 'time'), (1.2, 'query'), (1, 'cost'),
                       (.7, 'jac'), (1 if model['kind'] in ('mc', 'mcc') else 0, 'noise'))
        p = models.gen_par(R, seeds)
        op = dict(make(), p=p) if o == 'judge' else {'o': o, 'p': p}
        if o == 'time':
            op['t'] = {'s': R.seed32(), 'v': R.pick(None, 'equal', 'last')}
        elif o == 'query':
            op['w'] = R.pick(*(QUERIES + NOISY))
        elif o == 'noise':
            op.update(e=R.int(1, 99), k=R.pick(*EPOCHS))
        if R.chance(rate):
            op['f'] = gen_fault(R)
        ops.append(op)
    if not ops or ops[-1]['o'] in ('set', 'time', 'query', 'cost', 'jac', 'noise'):
        ops.append(dict(make(), p={'s': R.pick(*seeds)}))
    return ops


def simpler(s):
    """smaller scenarios for the reduction of a failure"""
    m = s['model']
    for key, val in (('tf', None), ('drift', 'one'), ('method', None), ('deriv', False),
                     ('same', None), ('init', 'id')):
        if m.get(key) is not None and m.get(key) != val:
            if key == 'init' and any('state' in c['t'] for c in m['costs']):
                continue
            yield dict(s, model=dict(m, **{key: val}))
    if m.get('amp') and m.get('np') == m['nc']:
        yield dict(s, model=dict(m, amp=None))
    if len(m['costs']) > 1:
        for i in range(len(m['costs'])):
            yield dict(s, model=dict(m, costs=m['costs'][:i] + m['costs'][i + 1:]))
    for n, op in enumerate(s['ops']):
        if op.get('f'):
            yield dict(s, ops=s['ops'][:n] + [{k: v for k, v in op.items() if k != 'f'}] +
                       s['ops'][n + 1:])
        if (op.get('p') or {}).get('v'):
            yield dict(s, ops=s['ops'][:n] + [dict(op, p={'s': op['p']['s']})] +
                       s['ops'][n + 1:])
