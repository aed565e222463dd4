"""Builds qopt models (solver, costs, simulator) from JSON specifications.

Every call builds completely new objects, so that a "newly built" simulation
shares nothing with one that has a history.  User callbacks pass through named
fault points.
"""
import numpy as np

from . import faults
from .faults import FP


def q():
    import qopt
    from qopt import (matrix, noise, simulator, solver_algorithms, cost_functions,
                      transfer_function, amplitude_functions, optimize)
    return qopt


def share(x):
    """How inputs of the user get to the objects: as they are, or (C11) the
    same objects again for all who use equal ones."""
    return x if SHARE is None else SHARE(x)


SHARE = None


def rs(seed):
    return np.random.RandomState(seed & 0x7fffffff)


def herm(seed, dim):
    r = rs(seed)
    a = r.uniform(-1, 1, (dim, dim)) + 1j * r.uniform(-1, 1, (dim, dim))
    return np.round((a + a.conj().T) / 2, 3).astype(complex)


def unitary(seed, dim):
    w, v = np.linalg.eigh(herm(seed, dim))
    return (v * np.exp(1j * w * 3)) @ v.conj().T


def ketv(seed, dim):
    r = rs(seed)
    v = r.uniform(-1, 1, (dim, 1)) + 1j * r.uniform(-1, 1, (dim, 1))
    return v / np.linalg.norm(v)


# ------------------------------------------------------- parameter arrays
def par(spec, shape):
    """spec: {'s': seed, 'v': variant, ...} -> float array of `shape`"""
    r = rs(spec['s'])
    y = np.round(r.uniform(-1.5, 1.5, shape), 3)
    v = spec.get('v', 'plain')
    k = spec.get('k', 0)
    if v == 'near':            # differs slightly in one entry
        flat = y.reshape(-1)
        flat[k % flat.size] += spec.get('d', 1e-6)
    elif v == 'near_all':
        y = y + spec.get('d', 1e-6)
    elif v == 'neg':
        y = -y
    elif v == 'rev':
        y = y[::-1].copy()
    elif v == 'swap':
        y = y[:, ::-1].copy()
    elif v == 'zero':
        y = np.zeros(shape)
    elif v == 'const':
        y = np.full(shape, y.flat[0])
    elif v == 'roll':
        y = np.roll(y, 1 + k, axis=0)
    elif v == 'big':
        y = y * 4
    elif v == 'palin':         # the same forwards and backwards
        y = y + y[::-1]
    elif v == 'alike':         # all controls the same
        y[:] = y[:, :1]
    elif v == 'steps':         # few values, many repetitions
        y = np.round(y)
    elif v == 'single':
        flat = np.zeros(y.size)
        flat[k % y.size] = y.flat[k % y.size]
        y = flat.reshape(shape)
    elif v == 'late':          # constant but for the last step
        y[:-1] = y[:1]
    return np.ascontiguousarray(y, dtype=float)


def gen_par(R, base_seeds):
    s = R.pick(*base_seeds)
    return R.weighted(
        (5, {'s': s}),
        (3, {'s': s, 'v': 'near', 'k': R.int(0, 11), 'd': R.pick(1e-6, 1e-5, -1e-6, 1e-3, 1e-8)}),
        (1, {'s': s, 'v': 'near_all', 'd': R.pick(1e-6, -1e-5)}),
        (1, {'s': s, 'v': 'neg'}), (1, {'s': s, 'v': 'rev'}),
        (1, {'s': s, 'v': 'swap'}), (0.5, {'s': s, 'v': 'zero'}),
        (0.5, {'s': s, 'v': 'const'}), (1, {'s': s, 'v': 'roll', 'k': R.int(0, 2)}),
        (0.5, {'s': s, 'v': 'big'}), (.4, {'s': s, 'v': 'palin'}),
        (.4, {'s': s, 'v': 'alike'}), (.6, {'s': s, 'v': 'steps'}),
        (.4, {'s': s, 'v': 'single', 'k': R.int(0, 11)}), (.4, {'s': s, 'v': 'late'}))


def tau_arr(spec, nt):
    """spec: {'s': seed, 'v': variant}"""
    r = rs(spec['s'])
    t = np.round(r.uniform(0.1, 0.9, nt), 2)
    v = spec.get('v')
    if v == 'near':
        t[spec.get('k', 0) % nt] += 1e-5
    elif v == 'rev':
        t = t[::-1].copy()
    elif v == 'equal':
        t = np.full(nt, t[0])
    elif v == 'last':
        t[-1] *= 1.5
    return t * spec.get('scale', 1.)


# ------------------------------------------------------ transfer functions
def build_tf(s):
    tfm = q().transfer_function
    t = s['t']
    b = tuple(s['b']) if s.get('b') else None
    n = s.get('n', 1)
    if t == 'id':
        return tfm.IdentityTF(num_ctrls=n)
    if t == 'over':
        return tfm.OversamplingTF(num_ctrls=n, bound_type=b, oversampling=s['k'])
    if t == 'mover':
        return tfm.OversamplingMTF(num_ctrls=n, bound_type=b, oversampling=s['k'],
                                   offset=s.get('off', 0.))
    if t == 'exp':
        return tfm.ExponentialMTF(awg_rise_time=s['rise'], num_ctrls=n,
                                  oversampling=s['k'], bound_type=b,
                                  offset=s.get('off'))
    if t == 'conv':
        return tfm.ConvolutionTF(kernel=share(np.array(s['kernel'])), num_ctrls=n,
                                 mode=s.get('mode', 'nearest'))
    if t == 'gauss':
        return tfm.GaussianConvolution(sigma=s['sigma'], num_ctrls=n,
                                       mode=s.get('mode', 'nearest'))
    if t == 'custom':
        m = np.round(rs(s['s']).uniform(-1, 1, (s['x'], s['y'], n)), 3)
        return tfm.CustomMTF(share(m), num_ctrls=n, bound_type=b, offset=s.get('off'))
    if t == 'cat':
        return tfm.ConcatenateTF(build_tf(s['a']), build_tf(s['c']))
    if t == 'mcat':
        return tfm.ConcatenateMTF(build_tf(s['a']), build_tf(s['c']))
    if t == 'par':
        return tfm.ParallelTF(build_tf(s['a']), build_tf(s['c']))
    if t == 'mpar':
        return tfm.ParallelMTF(build_tf(s['a']), build_tf(s['c']))
    if t == 'scale':
        return _scale_tf_class()(n, s['f'])
    raise ValueError(t)


_SCALE = None


def _scale_tf_class():
    """A transfer function written by a user (with a fault point)."""
    global _SCALE
    if _SCALE is None:
        tfm = q().transfer_function

        class ScaleTF(tfm.TransferFunction):
            def __init__(self, n, f):
                super().__init__(num_ctrls=n)
                self.f = f

            def __call__(self, y):
                FP.hit('transfer')
                return self.f * y

            def gradient_chain_rule(self, deriv_by_transferred_par):
                FP.hit('transfer-grad')
                return self.f * deriv_by_transferred_par
        ScaleTF.__module__ = __name__
        ScaleTF.__qualname__ = 'ScaleTF'
        globals()['ScaleTF'] = ScaleTF
        _SCALE = ScaleTF
    return _SCALE


def gen_bound(R):
    return R.weighted((3, None), (1, ['n', 1]), (1, ['x', 1]), (1, ['right_n', 1]),
                      (1, [R.pick('n', 'x', 'right_n', 'right_n'), R.int(2, 4)]))


def gen_oversampling(R, depth):
    return R.int(4, 7) if depth == 0 and R.chance(.08) else R.int(1, 3)


def gen_tf(R, n, depth=0, custom_nt=None):
    """A transfer function specification for n controls."""
    opts = [(3, 'id'), (1.5, 'over'), (2, 'mover'), (2, 'exp'), (1, 'conv'),
            (1, 'gauss'), (1.5, 'scale')]
    if custom_nt:
        opts.append((1, 'custom'))
    if depth < 2:
        opts += [(1.2, 'cat'), (1.2, 'mcat')]
        if n > 1:
            opts += [(1.2, 'par'), (1.2, 'mpar')]
    t = R.weighted(*opts)
    if t == 'id':
        return {'t': 'id', 'n': n}
    if t in ('over', 'mover'):
        s = {'t': t, 'n': n, 'k': gen_oversampling(R, depth), 'b': gen_bound(R)}
        if t == 'mover' and R.chance(.3):
            s['off'] = 0.125
        return s
    if t == 'exp':
        return {'t': 'exp', 'n': n, 'k': gen_oversampling(R, depth), 'rise': R.pick(.1, .3, .8),
                'b': R.pick(['x', 0], ['x', 1], ['n', 1], ['right_n', 1], None,
                            [R.pick('n', 'x', 'right_n', 'right_n'), R.int(2, 4)]),
                'off': R.pick(None, None, .25)}
    if t == 'conv':
        return {'t': 'conv', 'n': n, 'kernel': R.pick([.5, 1., .5], [.2, .6, .3], [1.])}
    if t == 'gauss':
        return {'t': 'gauss', 'n': n, 'sigma': R.pick(.4, .8)}
    if t == 'scale':
        return {'t': 'scale', 'n': n, 'f': R.pick(.5, 1.5)}
    if t == 'custom':
        k = R.int(1, 2)
        return {'t': 'custom', 'n': n, 's': R.seed32(), 'y': custom_nt,
                'x': custom_nt * k, 'off': R.pick(None, .1)}
    if t == 'cat':
        return {'t': 'cat', 'a': gen_tf(R, n, depth + 1), 'c': gen_tf(R, n, depth + 1)}
    if t == 'mcat':
        return {'t': 'mcat', 'a': gen_mtf(R, n, depth + 1), 'c': gen_mtf(R, n, depth + 1)}
    m = R.int(1, n - 1)
    if t == 'par':
        k, b = R.int(1, 2), gen_bound(R)
        return {'t': 'par', 'a': _flat(R, m, k, b, False), 'c': _flat(R, n - m, k, b, False)}
    k, b = R.int(1, 2), gen_bound(R)
    return {'t': 'mpar', 'a': _flat(R, m, k, b, True), 'c': _flat(R, n - m, k, b, True)}


def _flat(R, n, k, b, matrix_only):
    """Partners of a parallel transfer function: same time frame."""
    t = R.pick('mover', 'exp') if matrix_only else R.pick('over', 'mover', 'exp')
    s = {'t': t, 'n': n, 'k': k, 'b': b}
    if t == 'exp':
        s['rise'] = R.pick(.1, .3, .8)
    return s


def gen_mtf(R, n, depth):
    t = R.weighted((2, 'mover'), (2, 'exp'), (1 if depth < 2 else 0, 'mcat'),
                   (1 if n > 1 else 0, 'mpar'))
    if t == 'mover':
        return {'t': t, 'n': n, 'k': R.int(1, 2), 'b': R.pick(None, None, ['n', 1])}
    if t == 'exp':
        return {'t': t, 'n': n, 'k': R.int(1, 2), 'rise': R.pick(.1, .3),
                'b': R.pick(['x', 0], ['n', 1])}
    if t == 'mcat':
        return {'t': t, 'a': gen_mtf(R, n, depth + 1), 'c': gen_mtf(R, n, depth + 1)}
    m = R.int(1, n - 1)
    k, b = R.int(1, 2), gen_bound(R)
    return {'t': 'mpar', 'a': _flat(R, m, k, b, True), 'c': _flat(R, n - m, k, b, True)}


def tf_depth(s):
    return 1 + max([tf_depth(s[k]) for k in ('a', 'c') if isinstance(s.get(k), dict)],
                   default=0)


def tf_uses(s, t):
    return s['t'] == t or any(tf_uses(s[k], t) for k in ('a', 'c')
                              if isinstance(s.get(k), dict))


# ------------------------------------------------------ amplitude functions
class _Quad:
    def __init__(self, a):
        self.a = a

    def value(self, x):
        FP.hit('amp')
        return self.a * x + .1 * x * x

    def deriv(self, x):
        FP.hit('amp-deriv')
        return self.a + .2 * x


class _Ramp(_Quad):
    """Nothing below zero: an integer, as Python programs write it."""

    def value(self, x):
        FP.hit('amp')
        return 0 if x <= 0 else self.a * x * x * x

    def deriv(self, x):
        FP.hit('amp-deriv')
        return 0 if x <= 0 else 3 * self.a * x * x


class _Mix:
    """u_i = sum_j M_ij x_j + .1 x_i^2, with derivative du_j/dx_m as 'imj'."""

    def __init__(self, seed, n):
        self.m = np.eye(n) + np.round(rs(seed).uniform(-.3, .3, (n, n)), 2)

    def value(self, x):
        FP.hit('amp')
        return x @ self.m.T + .1 * x ** 2

    def deriv(self, x):
        FP.hit('amp-deriv')
        n = x.shape[1]
        d = np.empty((x.shape[0], n, n))
        for i in range(x.shape[0]):
            d[i] = self.m.T + np.diag(.2 * x[i])
        return d


class _Scribble(_Mix):
    """A user function that uses (and overwrites) a work array of its own."""

    def value(self, x):
        v = super().value(x)
        work = np.array(x)
        work *= v
        return v


def unary(s):
    return (_Ramp if s.get('ramp') else _Quad)(s['a'])


def plain_amp(s):
    """The amplitude function, without qopt."""
    if s is None or s['t'] == 'id':
        return lambda x: np.array(x)
    if s['t'] == 'unary':
        f = unary(s)
        return lambda x: np.array([float(f.value(v)) for v in np.ravel(x)]).reshape(
            np.shape(x))
    return _Mix(s['s'], s['n']).value


def build_amp(s):
    af = q().amplitude_functions
    if s is None or s['t'] == 'id':
        return af.IdentityAmpFunc()
    if s['t'] == 'unary':
        f = unary(s)
        return af.UnaryAnalyticAmpFunc(f.value, f.deriv)
    f = _Mix(s['s'], s['n'])
    return af.CustomAmpFunc(f.value, f.deriv)


def gen_amp(R, n):
    return R.weighted((2, None), (1, {'t': 'unary', 'a': R.pick(.7, 1.3),
                                      'ramp': R.chance(.4)}),
                      (1.5, {'t': 'custom', 's': R.seed32(), 'n': n}))


# -------------------------------------------------------------- Lindblad
class LindCalls:
    """User callbacks of a Lindblad solver."""

    def __init__(self, spec, dim, nc):
        self.spec, self.dim, self.nc = spec, dim, nc
        r = rs(spec['s'])
        self.nl = spec['nl']
        self.w = np.round(r.uniform(.05, .3, (self.nl, nc)), 3)
        self.c = np.round(r.uniform(.02, .2, self.nl), 3)
        self.sup = [self._dissipator(l) for l in lind_ops(spec, dim)]

    def _dissipator(self, l):
        e = np.eye(self.dim)
        ll = l.conj().T @ l
        return (np.kron(l.conj(), l) - .5 * np.kron(e, ll) - .5 * np.kron(ll.T, e))

    def prefactor(self, amps, transferred):
        FP.hit('prefactor')
        out = self.c + (amps ** 2) @ self.w.T
        if self.spec.get('scribble'):
            amps *= 0
            transferred += 7
        return out

    def prefactor_deriv(self, amps, transferred):
        FP.hit('prefactor-deriv')
        # [t][ctrl][lindblad]
        return 2 * amps[:, :, None] * self.w.T[None, :, :]

    def superop(self, amps, transferred):
        FP.hit('superop')
        D = q().matrix.DenseOperator
        p = self.c + (amps ** 2) @ self.w.T
        if self.spec.get('scribble'):
            amps *= 0
        return [D(sum(p[t, l] * self.sup[l] for l in range(self.nl)))
                for t in range(p.shape[0])]

    def superop_deriv(self, amps, transferred):
        FP.hit('superop-deriv')
        D = q().matrix.DenseOperator
        d = 2 * amps[:, :, None] * self.w.T[None, :, :]
        return [[D(sum(d[t, c, l] * self.sup[l] for l in range(self.nl)))
                 for c in range(self.nc)] for t in range(d.shape[0])]


def lind_ops(spec, dim):
    r = rs(spec['s'] + 1)
    out = []
    for _ in range(spec['nl']):
        out.append(np.round(.3 * (r.uniform(-1, 1, (dim, dim))
                                  + 1j * r.uniform(-1, 1, (dim, dim))), 3))
    return out


# -------------------------------------------------------- filter function
class FFCalls:
    def __init__(self, spec, dim, nc):
        self.spec, self.dim, self.nc = spec, dim, nc
        self.ops = [herm(spec['s'] + i, dim) for i in range(spec['nn'])]
        for o in self.ops:
            o -= np.trace(o) / dim * np.eye(dim)

    def ident(self, i):
        # in an order that differs from the alphabetical one
        if self.spec.get('ids') == 'odd':
            return ('eps', 'B_z', 'charge', 'J1', 'A')[i]
        return 'N%d' % ((7 - i) if self.spec.get('ids') == 'rev' else i)

    def h_n_list(self, num_x):
        return [[o.copy(), list(np.round(np.linspace(.5, 1, num_x), 3) + .1 * i),
                 self.ident(i)] for i, o in enumerate(self.ops)]

    def h_n(self, opt_pars, transferred, amps):
        FP.hit('ff-hn')
        return [[o.copy(), .5 + amps[:, i % self.nc] ** 2, self.ident(i)]
                for i, o in enumerate(self.ops)]

    def n_coeffs_deriv(self, opt_pars, transferred, amps):
        FP.hit('ff-deriv')
        out = np.zeros((len(self.ops), self.nc, amps.shape[0]))
        for i in range(len(self.ops)):
            out[i, i % self.nc, :] = 2 * amps[:, i % self.nc]
        return out


def spectrum(omega):
    FP.hit('spectrum')
    return 1e-2 / (1 + np.asarray(omega) ** 2)


# ------------------------------------------------------------ user costs
_USER_COST = None


def user_cost_class():
    global _USER_COST
    if _USER_COST is None:
        cf = q().cost_functions

        class UserCost(cf.CostFunction):
            """A cost function of the user: re-uses its own result buffers."""

            def __init__(self, solver, seed, n, label):
                super().__init__(solver, label=label)
                self.seed, self.n = seed, n
                self.buf = np.zeros(n)

            def _w(self, k):
                dim = self.solver.forward_propagators[-1].shape
                return rs(self.seed + k).uniform(-1, 1, dim)

            def costs(self):
                FP.hit('cost')
                final = self.solver.forward_propagators[-1].data
                for k in range(self.n):
                    self.buf[k] = np.sum(self._w(k) * final.real) + .3 * k
                FP.hit('cost-late')
                return self.buf

            def grad(self):
                FP.hit('grad')
                s = self.solver
                d = s.frechet_deriv_propagators
                fwd = s.forward_propagators
                rev = s.reversed_propagators
                nt, nc = len(d[0]), len(d)
                out = np.zeros((nt, self.n, nc))
                for c in range(nc):
                    for t in range(nt):
                        full = (rev[nt - 1 - t] * d[c][t] * fwd[t]).data.real
                        for k in range(self.n):
                            out[t, k, c] = np.sum(self._w(k) * full)
                FP.hit('grad-late')
                return out
        UserCost.__module__ = __name__
        UserCost.__qualname__ = 'UserCost'
        globals()['UserCost'] = UserCost
        _USER_COST = UserCost
    return _USER_COST


# ------------------------------------------------------------------ noise
_NTG = {}


def ntg_classes():
    """Generators that log a copy of every set of samples they hand out."""
    if _NTG:
        return _NTG
    noise = q().noise

    def logging(base):
        class Logged(base):
            log = None

            @property
            def noise_samples(self):
                v = super().noise_samples
                if self.log is not None:
                    self.log.append(np.array(v))
                return v
        Logged.__module__ = __name__
        return Logged

    class Scripted(noise.NoiseTraceGenerator):
        """A user's generator: the draws are scripted."""

        def __init__(self, seed, n_noise_operators, n_traces, n_samples, redraw,
                     given=None, ask=False):
            super().__init__(n_samples_per_trace=n_samples,
                             n_traces=None if ask else n_traces,
                             n_noise_operators=n_noise_operators,
                             always_redraw_samples=redraw, noise_samples=given)
            self.seed, self.count = seed, 0
            self.size = (n_noise_operators, n_traces, n_samples)

        def _sample_noise(self):
            FP.hit('noise-draw')
            r = rs(self.seed + 7919 * self.count)
            self.count += 1
            self._noise_samples = r.uniform(-1, 1, self.size)
            FP.hit('noise-draw-late')
    _NTG['scripted'] = logging(Scripted)
    _NTG['qs'] = logging(noise.NTGQuasiStatic)
    _NTG['colored'] = logging(noise.NTGColoredNoise)
    for k, c in list(_NTG.items()):
        c.__qualname__ = c.__name__ = 'Logged_' + k
        globals()[c.__name__] = c
    Scripted.__module__ = __name__
    Scripted.__qualname__ = 'Scripted'
    globals()['Scripted'] = Scripted
    return _NTG


def psd(f):
    return 1e-1 / (1. + np.asarray(f))


def build_ntg(n, no, num_x, given=None):
    c = ntg_classes()
    t = n['gen']
    if t == 'scripted':
        return c['scripted'](n['s'], no, n['traces'], num_x, n['redraw'], given,
                             ask=n.get('ask', False))
    if t in ('qs-det', 'qs-mc'):
        return c['qs'](share([.3 + .1 * i for i in range(no)]), n_samples_per_trace=num_x,
                       n_traces=n['traces'], noise_samples=given,
                       always_redraw_samples=n['redraw'],
                       correct_std_for_discrete_sampling=n['traces'] > 1,
                       sampling_mode='uncorrelated_deterministic' if t == 'qs-det'
                       else 'monte_carlo')
    if t == 'colored':
        return c['colored'](n_samples_per_trace=num_x, noise_spectral_density=psd,
                            dt=.5, n_traces=n['traces'], n_noise_operators=no,
                            always_redraw_samples=n['redraw'],
                            low_frequency_extension_ratio=n.get('ext', 1))
    raise ValueError(t)


class FixedNoise:
    """The given samples, behind the interface of a noise trace generator."""

    def __init__(self, samples):
        self.samples = np.array(samples)

    always_redraw_samples = False

    @property
    def noise_samples(self):
        return np.array(self.samples)

    n_noise_operators = property(lambda s: s.samples.shape[0])
    n_traces = property(lambda s: s.samples.shape[1])
    n_samples_per_trace = property(lambda s: s.samples.shape[2])


class _NoiseAmp:
    """noise amplitude function of a user"""

    def __init__(self, kind):
        self.kind = kind

    def __call__(self, noise_samples, optimization_parameters,
                 transferred_parameters, control_amplitudes, **_):
        FP.hit('noise-amp')
        f = (1. + .3 * control_amplitudes[:, :1, None] ** 2
             + .1 * transferred_parameters[:, -1:, None]
             + .05 * np.sum(optimization_parameters))
        if self.kind == 'inplace':
            noise_samples *= f
            control_amplitudes *= 0.
            transferred_parameters += 5.
            optimization_parameters -= 3.
            out = noise_samples
        else:
            out = noise_samples * f
        FP.hit('noise-amp-late')
        return out


def noise_amp(kind):
    return None if kind is None else _NoiseAmp(kind)


def ref_noisy_propagators(model, y, samples):
    """[trace][time] matrices, by scipy's matrix exponential."""
    import scipy.linalg
    s = model.spec
    tau = tau_arr(s['tau'], model.nt)
    if s.get('tf'):
        tf = build_tf(s['tf'])
        tf.set_times(tau)
        x, dt, num_x = tf(y.copy()), tf.x_times, tf.num_x
    else:
        x, dt, num_x = y.copy(), tau, model.nt
    amp = plain_amp(s.get('amp'))
    u = amp(np.array(x))
    ns = np.transpose(samples, (2, 1, 0))
    if s['kind'] == 'mcc':
        ns = np.stack([amp(np.array(x) + ns[:, k, :]) - u
                       for k in range(ns.shape[1])], axis=1)
    elif s['noise'].get('ampf'):
        ns = _NoiseAmp('copy')(np.array(ns), y.copy(), np.array(x), np.array(u))
    k = s['ops']
    drift = s.get('drift', 'one')
    hd = [np.zeros((model.dim, model.dim)) if drift == 'none' else
          herm(k + 50 + (t if drift == 'per' else 0), model.dim) for t in range(num_x)]
    hc = [herm(k + i, model.dim) for i in range(model.nc)]
    hn = model.noise_opers()
    out = np.empty((ns.shape[1], num_x, model.dim, model.dim), complex)
    for tr in range(ns.shape[1]):
        for t in range(num_x):
            h = hd[t] + sum(u[t, c] * hc[c] for c in range(model.nc))
            h = h + sum(ns[t, tr, i] * hn[i] for i in range(len(hn)))
            out[tr, t] = exponential(-1j * h * dt[t], model.spec.get('method'))
    return out


def exponential(a, method=None):
    import scipy.linalg
    if method not in ORDERS[:3]:
        return scipy.linalg.expm(a)
    out = term = np.eye(len(a), dtype=complex)
    for n in range(ORDERS.index(method) + 1):
        term = term @ a / (n + 1)
        out = out + term
    return out


ORDERS = ('first_order', 'second_order', 'third_order', 'approx')


def any_method(R, s, p=.15):
    """Also the exponentiation methods which only approximate."""
    if R.chance(p):
        # the finite differences of "approx" are rough for dissipation
        s['method'] = R.pick(*(ORDERS if s['kind'] != 'lind' else ORDERS[:3]))
    return s


def frechet(a, e, method=None):
    """The derivative of the (approximate) exponential."""
    n = len(a)
    if method not in ORDERS[:3]:
        import scipy.linalg
        return scipy.linalg.expm_frechet(a, e, compute_expm=False)
    return exponential(np.block([[a, e], [np.zeros_like(a), a]]), method)[:n, n:]


def gen_mc_model(R, max_nt=3, gens=None, ampf=True, costs=(1, 3)):
    s = gen_model(R, kinds=('schro',), max_nt=max_nt, ff=False)
    s['kind'] = R.weighted((3, 'mc'), (1.2, 'mcc'))
    s['deriv'] = R.chance(.4)
    if s['kind'] == 'mcc' and s.get('amp') and s['amp']['t'] == 'custom' and R.chance(.3):
        s['amp'] = None
    s['noise'] = {'no': s['nc'] if s['kind'] == 'mcc' else R.int(1, 3),
                  'traces': R.int(1, 3), 's': R.seed32() % 10 ** 6,
                  'gen': R.pick(*gens) if gens else
                  R.weighted((4, 'scripted'), (1, 'qs-det'), (1, 'qs-mc'), (1, 'colored')),
                  'redraw': R.chance(.65), 'ask': R.chance(.2),
                  'ampf': R.pick(None, None, 'copy', 'inplace')
                  if ampf and s['kind'] == 'mc' else None}
    n = s['noise']
    if n['gen'] == 'scripted' and n['ask'] and n['redraw']:
        n['ask'] = False
    if n['gen'] == 'colored':
        n['ext'] = R.int(1, 2)
    n['given'] = bool(not n['redraw'] and n['gen'] != 'colored' and R.chance(.4))
    s['costs'] = gen_costs(R, 'mc', s['dim'], s['init'], None, *costs)
    if s['init'] != 'ket' and R.chance(.25):
        s['costs'].append({'t': 'ff', 'auto': False})
    return s


# ----------------------------------------------------------------- model
class Model:
    def __init__(self, spec):
        self.spec = spec
        self.dim, self.nc, self.nt = spec['dim'], spec['nc'], spec['nt']
        self.shape = (self.nt, self.nc)

    # ---- the user's inputs, built anew at every call
    def inputs(self):
        s = self.spec
        D = q().matrix.DenseOperator
        k = s['ops']
        tf = build_tf(s['tf']) if s.get('tf') else None
        if tf is not None:
            tf.set_times(tau_arr(s['tau'], self.nt))
            num_x = tf.num_x
        else:
            num_x = self.nt
        drift = s.get('drift', 'one')
        if drift == 'none':
            h_drift = []
        elif drift == 'one':
            h_drift = [D(herm(k + 50, self.dim))]
        elif drift == 'single':
            h_drift = D(herm(k + 50, self.dim))
        else:
            h_drift = [D(herm(k + 50 + i, self.dim)) for i in range(num_x)]
        inp = dict(h_drift=h_drift,
                   h_ctrl=[D(herm(k + i, self.dim)) for i in range(self.nc)],
                   tau=tau_arr(s['tau'], self.nt),
                   exponential_method=s.get('method'),
                   is_skew_hermitian=s.get('skew', s['kind'] != 'lind'),
                   transfer_function=tf,
                   amplitude_function=build_amp(s.get('amp')),
                   frechet_deriv_approx_method='grape' if s.get('grape') else None)
        if s.get('init') == 'ket':
            inp['initial_state'] = D(ketv(k + 90, self.dim))
        if s.get('ff'):
            f = FFCalls(s['ff'], self.dim, self.nc)
            if s['ff']['form'] == 'list':
                inp['filter_function_h_n'] = f.h_n_list(num_x)
            else:
                inp['filter_function_h_n'] = f.h_n
                if s['ff'].get('deriv'):
                    inp['filter_function_n_coeffs_deriv'] = f.n_coeffs_deriv
        elif s['kind'] != 'lind' and k % 3 == 1:
            inp['filter_function_h_n'] = []     # the user's own list; as without one
        if s['kind'] == 'lind':
            l = s['lind']
            calls = LindCalls(l, self.dim, self.nc)
            inp['calculate_unitary_derivatives'] = s.get('deriv', False)
            ops = [D(o) for o in lind_ops(l, self.dim)]
            form = l['form']
            if form == 'initial' or form == 'prefactor-initial':
                inp['initial_diss_super_op'] = [D(o.copy()) for o in calls.sup]
            elif form != 'sup':
                inp['lindblad_operators'] = ops
            if form.startswith('prefactor'):
                inp['prefactor_function'] = calls.prefactor
                if not l.get('nograd'):
                    inp['prefactor_derivative_function'] = calls.prefactor_deriv
            if form == 'sup':
                inp['super_operator_function'] = calls.superop
                if not l.get('nograd'):
                    inp['super_operator_derivative_function'] = calls.superop_deriv
        else:
            inp['calculate_propagator_derivatives'] = s.get('deriv', False)
        return inp

    def solver(self, extra=None):
        s = self.spec
        sa = q().solver_algorithms
        inp = self.inputs()
        inp.update(extra or {})
        if s['kind'] in ('mc', 'mcc') and 'noise_trace_generator' not in inp:
            inp['noise_trace_generator'] = self.fixed_generator()
        for k in ('h_drift', 'h_ctrl', 'tau', 'initial_state', 'filter_function_h_n',
                  'lindblad_operators', 'initial_diss_super_op'):
            if k in inp and not callable(inp[k]):
                inp[k] = share(inp[k])
        if s['kind'] == 'schro':
            return sa.SchroedingerSolver(**inp)
        if s['kind'] == 'lind':
            return sa.LindbladSolver(**inp)
        if s['kind'] == 'mc':
            D = q().matrix.DenseOperator
            inp.setdefault('h_noise', share([D(x) for x in self.noise_opers()]))
            f = noise_amp(s['noise'].get('ampf'))
            if f is not None:
                inp['noise_amplitude_function'] = f
            return sa.SchroedingerSMonteCarlo(**inp)
        if s['kind'] == 'mcc':
            return sa.SchroedingerSMCControlNoise(**inp)
        raise ValueError(s['kind'])

    def fixed_generator(self):
        """a generator which was given its samples and keeps them"""
        n = self.spec['noise']
        num_x = self.num_x()
        given = np.round(rs(n['s'] + 5).uniform(-1, 1, (n['no'], n['traces'], num_x)), 3)
        if n['gen'] == 'fixed':
            return FixedNoise(given)
        return q().noise.NTGQuasiStatic(
            [.3 + .1 * i for i in range(n['no'])], n_samples_per_trace=num_x,
            n_traces=n['traces'], noise_samples=given, always_redraw_samples=False,
            correct_std_for_discrete_sampling=False, sampling_mode='monte_carlo')

    def noise_opers(self):
        s = self.spec
        if s['kind'] == 'mcc':
            return [herm(s['ops'] + i, self.dim) for i in range(self.nc)]
        return [herm(s['ops'] + 200 + i, self.dim) for i in range(s['noise']['no'])]

    def num_x(self):
        tf = build_tf(self.spec['tf']) if self.spec.get('tf') else None
        if tf is None:
            return self.nt
        tf.set_times(tau_arr(self.spec['tau'], self.nt))
        return tf.num_x

    def cost(self, c, solver):
        cf = q().cost_functions
        D = q().matrix.DenseOperator
        t = c['t']
        dim = self.dim
        comp = share(c.get('comp'))
        lab = {'label': c['label']} if c.get('label') else {}
        d = len(comp) if comp else dim
        if t == 'op':
            return cf.OperationInfidelity(
                solver, target=share(D(unitary(c['s'], d))), computational_states=comp,
                map_to_closest_unitary=c.get('closest', False), **lab)
        if t == 'opsup':
            return cf.OperationInfidelity(
                solver, target=share(D(unitary(c['s'], d))), computational_states=comp,
                super_operator_formalism=True, **lab)
        if t == 'state':
            if comp:
                lab.update(computational_states=comp,
                           rescale_propagated_state=c.get('rescale', False))
            return cf.StateInfidelity(solver, target=share(self.state_target(c, d)), **lab)
        if t == 'statesub':
            return cf.StateInfidelitySubspace(
                solver, target=share(self.state_target(c, 2)), dims=[2, 2],
                remove=[c.get('rm', 1)], **lab)
        if t == 'leak':
            return cf.LeakageError(solver, computational_states=comp, **lab)
        if t == 'leakliou':
            return cf.LeakageLiouville(solver, computational_states=comp,
                                       input_unitary=c['unitary'],
                                       monte_carlo=c.get('mc', False), **lab)
        if t == 'ff':
            om = np.geomspace(1e-2, 10, 12) if not c.get('auto') else None
            return cf.OperatorFilterFunctionInfidelity(
                solver, noise_power_spec_density=spectrum, omega=share(om), **lab)
        if t == 'user':
            return user_cost_class()(solver, c['s'], c['n'],
                                     ['U%d' % i for i in range(c['n'])])
        if t == 'opnoise':
            return cf.OperationNoiseInfidelity(
                solver, target=None if c['negl'] and c.get('auto') else
                share(D(unitary(c['s'], d))), computational_states=comp,
                neglect_systematic_errors=c['negl'],
                map_to_closest_unitary=c.get('closest', False), **lab)
        if t == 'statenoise':
            if comp:
                lab.update(computational_states=comp,
                           rescale_propagated_state=c.get('rescale', False))
            return cf.StateNoiseInfidelity(
                solver, target=share(self.state_target(c, d)),
                neglect_systematic_errors=c['negl'], **lab)
        if t == 'mcliou':
            return cf.LiouvilleMonteCarloEntanglementInfidelity(
                solver, target=share(D(unitary(c['s'], d))), computational_states=comp, **lab)
        if t == 'incleak':
            return cf.IncoherentLeakageError(solver, computational_states=comp, **lab)
        raise ValueError(t)

    def state_target(self, c, d):
        v = ketv(c['s'], d)
        return q().matrix.DenseOperator(v if c.get('ket') else v.conj().T)

    def has_grad(self, c):
        return c['t'] in ('op', 'opsup', 'state', 'statesub', 'leak', 'ff', 'user',
                          'opnoise')


def gen_subspace(R, dim):
    """computational states (not all, in any order)"""
    if dim == 3:
        return R.weighted((3, [0, 1]), (2, [1, 0]), (3, [0, 2]), (1, [2, 1]), (1, [0]), (1, [2]))
    return R.weighted((3, [0, 1]), (2, [1, 0]), (3, [0, 2]), (1, [3, 1]), (1, [1, 3]), (.6, [3]),
                      (1, [0, 1, 2]), (1, [0, 1, 3]), (1, [3, 0, 2]))


def gen_costs(R, kind, dim, init, ff, lo=1, hi=3):
    n = R.int(lo, hi)
    out = []
    for i in range(n):
        s = R.seed32()
        comp = None
        if dim > 2 and R.chance(.4):
            comp = gen_subspace(R, dim)
        opts = []
        if kind == 'schro':
            if init == 'ket':
                opts.append((3, {'t': 'state', 's': s}))
                if dim == 4:
                    opts.append((3, {'t': 'statesub', 's': s, 'rm': R.int(0, 1)}))
            else:
                opts.append((3, {'t': 'op', 's': s, 'comp': comp,
                                 'closest': bool(comp and len(comp) > 1 and R.chance(.3))}))
                if dim > 2:
                    opts.append((1.5, {'t': 'leak', 'comp': gen_subspace(R, dim)}))
                    opts.append((.7, {'t': 'leakliou', 'comp': gen_subspace(R, dim), 'unitary': True}))
            opts.append((1.5, {'t': 'user', 's': s, 'n': R.int(1, 3)}))
        elif kind == 'lind':
            opts.append((3, {'t': 'opsup', 's': s, 'comp': comp}))
            if dim > 2:
                opts.append((.7, {'t': 'leakliou', 'comp': gen_subspace(R, dim), 'unitary': False}))
            opts.append((1.5, {'t': 'user', 's': s, 'n': R.int(1, 2)}))
        else:
            if init == 'ket':
                opts.append((3, {'t': 'statenoise', 's': s, 'negl': R.chance(.5)}))
            else:
                opts.append((4, {'t': 'opnoise', 's': s, 'comp': comp, 'negl': R.chance(.5),
                                 'closest': bool(comp and len(comp) > 1 and R.chance(.3)),
                                 'auto': R.chance(.3)}))
                opts.append((1, {'t': 'mcliou', 's': s, 'comp': comp}))
                opts.append((1, {'t': 'op', 's': s, 'comp': comp}))
                if dim > 2:
                    opts.append((1, {'t': 'incleak', 'comp': gen_subspace(R, dim)}))
                    opts.append((.7, {'t': 'leakliou', 'comp': gen_subspace(R, dim), 'unitary': True,
                                      'mc': True}))
        if ff:
            opts.append((3, {'t': 'ff', 'auto': R.chance(.25)}))
        out.append(R.weighted(*opts))
    return out


def gen_model(R, kinds=('schro', 'lind'), tf=True, ff=True, costs=(1, 3),
              max_nt=4, grape=True, many=0):
    kind = R.pick(*kinds)
    dim = R.weighted((4, 2), (2, 3), (1, 4)) if kind != 'lind' else R.weighted((4, 2), (1, 3))
    nc = R.int(4, 5) if many and R.chance(many) else R.int(1, 3)
    nt = R.int(1, max_nt)
    if nt == 1 and R.chance(.7):
        nt = 2
    s = {'kind': kind, 'dim': dim, 'nc': nc, 'nt': nt, 'ops': R.seed32() % 10 ** 6,
         'tau': {'s': R.seed32()}, 'drift': R.weighted((3, 'one'), (1, 'none'), (2, 'per')),
         'method': R.pick('Frechet', 'Frechet', 'spectral', None),
         'deriv': R.chance(.5)}
    if kind == 'lind':
        # 'spectral' assumes normal generators; dissipative ones are not
        s['method'] = R.pick('Frechet', None)
        s['lind'] = {'s': R.seed32() % 10 ** 6, 'nl': R.int(4, 6) if many and R.chance(many) else R.int(1, 3),
                     'form': R.pick('ops', 'initial', 'prefactor', 'prefactor-initial', 'sup'),
                     'scribble': R.chance(.4), 'nograd': R.chance(.3)}
    if grape and kind != 'lind' and R.chance(.2):
        s['grape'] = True
        s['deriv'] = R.chance(.3)
    if kind == 'lind' and grape and R.chance(.15):
        s['grape'] = True
    s['init'] = 'ket' if kind != 'lind' and R.chance(.3) else 'id'
    if tf and R.chance(.6):
        s['tf'] = gen_tf(R, nc, custom_nt=nt)
        if nt == 1 and tf_uses(s['tf'], 'exp'):
            s['tf'] = None      # not supported: one step with little padding
    s['amp'] = gen_amp(R, nc)
    if ff and kind != 'lind' and R.chance(.35):
        s['ff'] = {'s': R.seed32() % 10 ** 6, 'nn': R.int(1, 2),
                   'form': R.pick('list', 'call'), 'ids': R.pick(None, 'rev'),
                   'deriv': R.chance(.7)}
    s['costs'] = gen_costs(R, kind, dim, s['init'], s.get('ff'), *costs)
    return s


# --------------------------------------------------------------- answers
def plain(x):
    """Operators and nested lists of operators -> numpy arrays (copies)."""
    if x is None:
        return np.array(np.nan)
    if hasattr(x, 'data') and not isinstance(x, np.ndarray) and hasattr(x, 'dag'):
        return np.array(x.data)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return np.zeros(0)
        return np.stack([plain(e) for e in x])
    return np.array(x)


def diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (a.shape, b.shape)
    if a.size == 0:
        return None
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return 'NaN pattern differs'
    with np.errstate(all='ignore'):
        d = np.abs(np.where(na, 0, a) - np.where(nb, 0, b))
        s = np.abs(np.where(nb, 0, b))
    bad = d > 1e-9 * np.maximum(s, .1)
    bad |= np.isinf(a) != np.isinf(b)
    if bad.any():
        i = np.unravel_index(np.argmax(d), d.shape)
        return 'differs by %.3g (%r instead of %r at %s)' % (
            d[i], a[i], b[i], tuple(int(j) for j in i))
    return None
