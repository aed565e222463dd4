"""C21: noise traces have the requested statistics, under every history of draws."""
import copy
import pickle

import numpy as np

from .. import models
from ..faults import FP, reported
from ..kernel import Ctx, Violation

ID = 'C21'
RUNS = {'quick': 2500, 'thorough': 60000}
SHRINK_LISTS = ('ops',)
RULE = ('a run is one to three noise generators and a seeded history of draws, failing '
        'draws, changes of their settings, copies and foreign use of the random source; '
        'the history is executed once per standard normal number it consumes, with a '
        'scripted random source that delivers a unit vector, which yields the exact joint '
        'covariance of everything that was drawn; non-trivial: at least two draws')
STATE_MEASURE = ('distinct (kind of generator, number of time steps, extension, spectrum, '
                 'preceding operations) situations')
REAL = ['qopt noise generators and fast_colored_noise', 'numpy FFT']
STUB = ['random source (scripted: unit vectors, zeros, seeded vectors)',
        "the user's spectral density (with failures)"]
PROBES = ('odd-length', 'extended', 'two-draws', 'after-failed-draw', 'other-density',
          'other-dt', 'copied', 'power-of-two', 'quasi-static', 'many-operators', 'exact', 'two-generators')
FAULTS = ('psd', 'randn')
ASSUMPTIONS = [
    'the source is the numpy module level normal distribution; if the code draws from '
    'another one, covariances are estimated from repeated seeded executions instead '
    '(margin: seven standard errors)',
    'covariances are compared with a relative tolerance of 1e-9 of the largest one']

NAMES = ('randn', 'standard_normal', 'normal')


class Source:
    """Scripted standard normal numbers behind numpy's module level functions."""

    def __init__(self):
        self.z, self.pos, self.used = None, 0, 0
        self.real = {n: getattr(np.random, n) for n in NAMES}

    def take(self, shape):
        n = int(np.prod(shape, dtype=int))
        out = np.zeros(n)
        if self.z is not None:
            part = self.z[self.pos:self.pos + n]
            out[:len(part)] = part
        self.pos += n
        return out.reshape(shape)

    def randn(self, *shape):
        FP.hit('randn')
        v = self.take(shape)
        return v if shape else float(v)

    def standard_normal(self, size=None):
        FP.hit('randn')
        size = () if size is None else (size,) if np.isscalar(size) else tuple(size)
        v = self.take(size)
        return v if size else float(v)

    def normal(self, loc=0., scale=1., size=None):
        FP.hit('randn')
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
        size = (size,) if np.isscalar(size) else tuple(size)
        return loc + scale * self.take(size)

    def start(self, z):
        self.z, self.pos = z, 0

    def __enter__(self):
        for n in NAMES:
            setattr(np.random, n, getattr(self, n))
        return self

    def __exit__(self, *a):
        for n in NAMES:
            setattr(np.random, n, self.real[n])


# ------------------------------------------------------------ the scenario
DENSITIES = ('white', 'lorentz', 'pink', 'band', 'rise', 'sharp')


def density(kind, a):
    def f(x):
        x = np.asarray(x, float)
        if kind == 'white':
            return a * np.ones_like(x)
        if kind == 'lorentz':
            return a / (1. + x ** 2)
        if kind == 'pink':
            return a / x
        if kind == 'band':
            return a * (x < .6)
        if kind == 'rise':
            return a * x ** 2
        return a * np.exp(-(x - .5) ** 2 / .02)

    def g(x):
        FP.hit('psd')
        return f(x)
    g.plain = f
    return g


class Density:
    """(can be pickled)"""

    def __init__(self, kind, a):
        self.kind, self.a = kind, a

    def __call__(self, x):
        FP.hit('psd')
        return density(self.kind, self.a).plain(x)


MADE = {}


def made(psd):
    """the function for a spectrum; the same for all of its users"""
    k = tuple(psd)
    if k not in MADE:
        MADE[k] = Density(*psd)
    return MADE[k]


def gen_density(R):
    return [R.pick(*DENSITIES), R.pick(.01, .3, 2., 40.)]


def gen_one(R):
    t = R.weighted((6, 'colored'), (2, 'static'), (2, 'function'))
    g = {'t': t, 'n': R.int(1, 9), 'no': R.int(1, 2), 'traces': R.int(1, 3),
         'dt': R.pick(.1, .5, 1., 3.), 'psd': gen_density(R), 'redraw': R.chance(.7),
         'ext': R.weighted((3, 1), (2, 2), (1, 3)), 'pow': R.chance(.4),
         'std': [R.pick(.05, .5, 3.) for _ in range(4)], 'ints': R.chance(.2)}
    g['shape'] = R.pick([2], [1, 2], [2, 1], [1])
    if R.chance(.25):
        g.update(no=R.int(3, 4), traces=R.int(1, 4), n=R.int(1, 3))
    elif R.chance(.05):
        g['n'] = R.int(10, 40)
    if g['n'] * g['ext'] > 12:
        g['no'] = g['traces'] = 1
    return g


def generate(R, tier):
    n = R.weighted((3, 1), (3, 2), (1, 3))
    gens = [gen_one(R) for _ in range(n)]
    if R.chance(.4):
        for g in gens[1:]:
            g['psd'] = gens[0]['psd']
            if R.chance(.6):
                g.update(n=gens[0]['n'], ext=gens[0]['ext'])
    ops = []
    for _ in range(R.int(1, 5 if tier == 'quick' else 9)):
        o = R.weighted((6, 'samples'), (1, 'density'), (1, 'dt'), (1, 'sizes'),
                       (1, 'copy'), (.6, 'pickle'), (.6, 'foreign'), (.7, 'ext'),
                       (.5, 'toggle'), (.4, 'seed'))
        op = {'o': o, 'g': R.int(0, n - 1), 's': R.seed32() % 10 ** 6}
        if o == 'density':
            op['psd'] = gen_density(R)
        elif o == 'dt':
            op['dt'] = R.pick(.1, .5, 1., 3.)
        elif o == 'ext':
            op['ext'] = R.int(1, 3)
        elif o == 'samples' and R.chance(.15):
            op['f'] = {'point': R.pick('psd', 'psd', 'randn'), 'nth': 1,
                       'exc': R.pick('ValueError', 'MemoryError', 'UserBug')}
        ops.append(op)
    ops.append({'o': 'samples', 'g': R.int(0, n - 1), 's': 0})
    return {'gens': gens, 'ops': ops}


class G:
    def __init__(self, s):
        noise = models.q().noise
        self.s = s
        self.psd, self.dt, self.ext = s['psd'], s['dt'], s['ext']
        self.redraw = s['redraw'] or s['t'] == 'function'
        self.drawn = None           # the kept draw
        self.g = None
        n = s['n']
        if s['t'] == 'colored':
            self.g = noise.NTGColoredNoise(
                n_samples_per_trace=n, noise_spectral_density=made(self.psd),
                dt=s['dt'], n_traces=s['traces'], n_noise_operators=s['no'],
                always_redraw_samples=s['redraw'],
                low_frequency_extension_ratio=s['ext'])
        elif s['t'] == 'static':
            self.g = noise.NTGQuasiStatic(
                s['std'][:s['no']], n_samples_per_trace=n, n_traces=s['traces'],
                always_redraw_samples=s['redraw'],
                correct_std_for_discrete_sampling=s['traces'] > 1,
                sampling_mode='monte_carlo')

    def samples(self):
        s = self.s
        if s['t'] == 'function':
            return models.q().noise.fast_colored_noise(
                made(self.psd), self.dt, s['n'] * self.ext, tuple(s['shape']),
                r_power_of_two=s['pow'])
        return self.g.noise_samples

    def want(self, v=None):
        """(shape, covariance in time of each trace of each operator)"""
        s = self.s
        n = s['n']
        if s['t'] == 'static':
            return (s['no'], s['traces'], n), [np.full((n, n), s['std'][i] ** 2)
                                               for i in range(s['no'])
                                               for _ in range(s['traces'])]
        total = n * self.ext
        shape = (s['no'], s['traces'])
        if s['t'] == 'function':
            if s['pow']:
                # (the documentation says downwards, the code rounds upwards)
                up = down = 1
                while up < total:
                    up *= 2
                while 2 * down <= total:
                    down *= 2
                total = down if v is not None and v.shape[-1] == down else up
            n = total
            shape = tuple(s['shape'])
        j = np.arange(1, total)
        f = np.minimum(j, total - j) / (total * self.dt)
        p = density(*self.psd).plain(f) / (2 * self.dt)
        lags = np.abs(np.arange(n)[:, None] - np.arange(n)[None, :])
        r = np.array([np.sum(p * np.cos(2 * np.pi * j * k / total)) / total
                      for k in range(n)])
        return shape + (n,), [r[lags]] * int(np.prod(shape))


def play(scen, ctx=None):
    """-> [(array, [covariances]) of the new draws]"""
    MADE.clear()
    gs = [G(s) for s in scen['gens']]
    out = []
    seen = []
    failed = False
    for op in scen['ops']:
        g = gs[op['g'] % len(gs)]
        o = op['o']
        if ctx:
            ctx.ev(o, op['g'])
        if o == 'samples':
            FP.arm(op.get('f'))
            try:
                v = g.samples()
            except Exception as e:
                fired = FP.disarm()
                if fired is None or not reported(fired, e):
                    raise
                if ctx:
                    ctx.probe('failed-draw')
                failed = True
                continue
            FP.disarm()
            if ctx:
                if failed:
                    ctx.probe('after-failed-draw')
                if g.s['t'] != 'static':
                    if g.s['n'] * g.ext % 2:
                        ctx.probe('odd-length')
                    if g.ext > 1:
                        ctx.probe('extended')
                else:
                    ctx.probe('quasi-static')
                if g.s['no'] > 2 and g.s['t'] != 'function':
                    ctx.probe('many-operators')
                if g.s['t'] == 'function' and g.s['pow']:
                    ctx.probe('power-of-two')
                ctx.state(g.s['t'], g.s['n'], g.ext, g.psd[0], g.redraw, seen[-2:])
            if not g.redraw and g.drawn is not None:
                if not np.array_equal(v, g.drawn):
                    raise Violation('kept-samples-changed', '')
                continue
            g.drawn = np.array(v)
            out.append((np.array(v),) + g.want(v))
        elif o == 'density':
            g.psd = op['psd']
            if g.s['t'] == 'colored':
                g.g.noise_spectral_density = made(g.psd)
                if ctx and g.drawn is not None:
                    ctx.probe('other-density')
        elif o == 'dt':
            g.dt = op['dt']
            if g.s['t'] == 'colored':
                g.g.dt = g.dt
                if ctx and g.drawn is not None:
                    ctx.probe('other-dt')
        elif o == 'ext':
            g.ext = op['ext']
            if g.s['t'] == 'colored':
                g.g.low_frequency_extension_ratio = g.ext
        elif o == 'toggle' and g.g is not None:
            g.redraw = not g.redraw
            g.g.always_redraw_samples = g.redraw
        elif o == 'sizes' and g.g is not None:
            size = (g.g.n_noise_operators, g.g.n_traces, g.g.n_samples_per_trace)
            if size != g.want()[0]:
                raise Violation('wrong-size', '%s instead of %s' % (size, g.want()[0]))
        elif o == 'copy' and g.g is not None:
            old, g.g = g.g, copy.deepcopy(g.g)
            if g.s['t'] == 'colored':
                old.noise_spectral_density = Density('white', 7.)
            if ctx:
                ctx.probe('copied')
        elif o == 'pickle' and g.g is not None:
            g.g = pickle.loads(pickle.dumps(g.g))
        elif o == 'foreign':
            np.random.randn(op['s'] % 4)
        elif o == 'seed':
            # (a scripted source has no seed)
            pass
        seen.append(o)
    return out


def execute(scen, ctx):
    FP.reset(ctx)
    source = Source()
    with source:
        source.start(None)
        first = play(scen, ctx)
        n = source.pos
        for v, shape, _ in first:
            ctx.check(isinstance(v, np.ndarray) and v.shape == shape, 'shape',
                      lambda: '%s instead of %s' % (v.shape, shape))
            ctx.check(np.all(np.isfinite(v)), 'not-finite', '')
        FP.reset(Ctx())      # faults are counted once
        zero = flat(first)
        exact = n > 0 and not np.any(zero)
        if exact:
            a = np.empty((len(zero), n))
            z = np.zeros(n)
            for k in range(n):
                z[k] = 1.
                source.start(z)
                a[:, k] = flat(play(scen))
                z[k] = 0.
            r = models.rs(scen['ops'][0]['s'])
            for _ in range(2):
                z = r.standard_normal(n) * r.choice([.1, 1., 5.])
                source.start(z)
                v = flat(play(scen))
                exact = exact and np.allclose(v, a @ z, rtol=1e-9,
                                              atol=1e-9 * np.max(np.abs(v), initial=1e-9))
    ctx.nontrivial = len(first) > 1
    if len(first) > 1:
        ctx.probe('two-draws')
    if len(scen['gens']) > 1:
        ctx.probe('two-generators')
    if exact:
        ctx.probe('exact')
        compare(ctx, first, a @ a.T, None)
    else:
        ctx.probe('estimated')
        k = 1500
        np.random.seed(scen['ops'][0]['s'])
        x = np.array([flat(play(scen)) for _ in range(k)])
        err = np.std(x, axis=0) / np.sqrt(k)
        ctx.check(np.all(np.abs(np.mean(x, axis=0)) <= 7 * err + 1e-12), 'mean', '')
        compare(ctx, first, x.T @ x / k, k)


def flat(draws):
    return np.concatenate([v.ravel() for v, _, _ in draws]) if draws else np.zeros(0)


def compare(ctx, draws, c, k):
    blocks = [(d, b) for d, (_, _, bs) in enumerate(draws) for b in bs]
    pos = 0
    seen = []
    for d, b in blocks:
        m = len(b)
        here = slice(pos, pos + m)
        top = max(np.max(np.abs(b)), 1e-300)
        tol = 1e-9 * top if k is None else 7 * np.sqrt(2. / k) * top
        got = c[here, here]
        ctx.check(np.max(np.abs(got - b)) <= tol, 'wrong-spectrum',
                  lambda: 'draw %d: covariance in time %s instead of %s' % (
                      d, np.round(got[0], 9), np.round(b[0], 9)))
        for dd, other, t2 in seen:
            x = c[here, other]
            lim = 1e-9 * np.sqrt(top * t2) if k is None else 7 * np.sqrt(top * t2 / k)
            ctx.check(np.max(np.abs(x)) <= lim, 'correlated-draws' if dd != d else
                      'correlated-traces',
                      lambda: 'traces of draws %d and %d have the covariance %g' % (
                          dd, d, np.max(np.abs(x))))
        seen.append((d, here, top))
        pos += m


def simplify(s):
    for i, g in enumerate(s['gens']):
        for key, val in (('no', 1), ('traces', 1), ('ext', 1), ('psd', ['white', 1.]),
                         ('dt', 1.), ('n', 2), ('n', 3), ('pow', False), ('t', 'colored')):
            if g[key] != val:
                yield dict(s, gens=s['gens'][:i] + [dict(g, **{key: val})] +
                           s['gens'][i + 1:])
