"""C12: sampling contract of the noise generators under every access history."""
import copy
import pickle

import numpy as np

from .. import faults, models
from ..faults import FP, reported
from ..kernel import Violation

ID = 'C12'
RUNS = {'quick': 4000, 'thorough': 120000}
SHRINK_LISTS = ('ops',)
RULE = ('a run is one to three generators and a seeded sequence of accesses (samples, '
        'sizes, copies, switching redraw, foreign use of the random source, failing '
        'draws); non-trivial: at least two sample accesses were compared')
STATE_MEASURE = ('distinct (generator kind, mode, access kind, preceding access kinds) '
                 'situations')
REAL = ['qopt noise generators', 'numpy random source (seeded, restored by the check)']
STUB = ["the user's generator subclass and spectral density (with failures)"]
PROBES = ('redrawn', 'kept', 'given', 'reproduced', 'failed-draw', 'copied', 'statistics')
ASSUMPTIONS = [
    'standard deviations in the Monte Carlo mode are checked on >= 400 traces with a '
    'margin of 25 % (about seven standard errors)',
    'callers do not write into the arrays they are given']


def setup():
    models.ntg_classes()


def gen_one(R):
    t = R.weighted((3, 'qs-det'), (3, 'qs-mc'), (2, 'colored'), (2, 'scripted'))
    no = R.weighted((12, R.int(1, 3)), (1, R.int(4, 6)))
    big = t == 'qs-mc' and R.chance(.25)
    traces = R.int(400, 500) if big else R.weighted(
        (12, R.int(1, 6)), (1, R.int(7, 40)))
    corr = traces > 1 and R.chance(.5)
    return {'gen': t, 'no': no, 'traces': traces, 'samples': R.weighted((12, R.int(1, 6)), (1, R.int(7, 40))),
            'std': [R.pick(.05, .3, 1., 2.5) for _ in range(no)],
            'tuple': R.chance(.3), 'corr': corr, 'redraw': R.chance(.55),
            'given': t in ('qs-det', 'qs-mc', 'scripted') and R.chance(.3),
            'ask': t == 'scripted' and R.chance(.4),
            's': R.seed32(), 'ext': R.int(1, 3), 'dt': R.pick(.1, .5, 2.)}


def generate(R, tier):
    n = R.weighted((2, 1), (2, 2), (1, 3))
    gens = [gen_one(R) for _ in range(n)]
    ops = []
    mix = [(6, 'samples'), (1, 'n_traces'), (1, 'n_samples_per_trace'),
           (1, 'n_noise_operators'), (1, 'foreign'), (1, 'reseed'), (1.5, 'repeat'),
           (.7, 'toggle'), (.6, 'copy'), (.3, 'pickle')]
    for _ in range(R.int(3, 14 if tier == 'quick' else 30)):
        op = {'o': R.weighted(*mix), 'g': R.int(0, n - 1), 's': R.seed32()}
        if op['o'] == 'samples' and R.chance(.15):
            op['f'] = {'point': R.pick('noise-draw', 'psd'), 'nth': 1,
                       'exc': R.pick('ValueError', 'MemoryError', 'KeyboardInterrupt',
                                     'UserBug')}
        ops.append(op)
    return {'gens': gens, 'ops': ops}


def density(f):
    FP.hit('psd')
    return .1 / (1. + np.asarray(f))


class G:
    """a generator and what is known about it"""

    def __init__(self, s, ctx):
        noise = models.q().noise
        self.s, self.ctx = s, ctx
        t = s['gen']
        self.stored = None          # samples that must be returned unchanged
        given = None
        self.size = (s['no'], s['traces'] * (s['no'] if t == 'qs-det' else 1),
                     s['samples'])
        if s['given']:
            given = models.rs(s['s']).uniform(-1, 1, self.size)
            self.stored = given.copy()
        self.redraw = s['redraw']
        self.std = tuple(s['std']) if s['tuple'] else list(s['std'])
        if t in ('qs-det', 'qs-mc'):
            self.g = ctx.call(
                'build', noise.NTGQuasiStatic, self.std, n_samples_per_trace=s['samples'],
                n_traces=s['traces'], noise_samples=given,
                always_redraw_samples=s['redraw'],
                correct_std_for_discrete_sampling=s['corr'],
                sampling_mode='uncorrelated_deterministic' if t == 'qs-det'
                else 'monte_carlo')
        elif t == 'colored':
            self.g = ctx.call(
                'build', noise.NTGColoredNoise, s['samples'], density, s['dt'],
                n_traces=s['traces'], n_noise_operators=s['no'],
                always_redraw_samples=s['redraw'],
                low_frequency_extension_ratio=s['ext'])
        else:
            self.g = ctx.call('build', models.Scripted, s['s'], s['no'], s['traces'],
                              s['samples'], s['redraw'], given, s['ask'])
        self.given = given
        self.out = []               # (array handed out, its value)
        self.kinds = []

    # ---- one access to the samples
    def samples(self):
        count = getattr(self.g, 'count', None)
        v = self.g.noise_samples
        self.judge(v, count)
        return v

    def judge(self, v, count):
        ctx, s = self.ctx, self.s
        ctx.check(isinstance(v, np.ndarray) and v.shape == self.size, 'shape',
                  lambda: '%s instead of %s' % (getattr(v, 'shape', v), self.size))
        ctx.check(np.all(np.isfinite(v)), 'not-finite', '')
        if not self.redraw and self.stored is not None:
            ctx.check(np.array_equal(v, self.stored), 'kept-samples-changed',
                      'samples differ from the ones drawn at the first access or given')
            ctx.probe('given' if self.given is not None else 'kept')
            if count is not None:
                ctx.check(self.g.count == count, 'needless-draw', '')
        else:
            ctx.probe('redrawn')
            if count is not None:
                ctx.check(self.g.count == count + 1, 'not-redrawn',
                          '%d draws at one access' % (self.g.count - count))
            self.contract(v)
        self.stored = np.array(v)
        self.out.append((v, np.array(v)))
        for a, b in self.out[-6:]:
            ctx.check(np.array_equal(a, b), 'handed-out-array-changed',
                      'an array returned earlier was overwritten')
        if self.given is not None:
            pass
        ctx.state(s['gen'], self.redraw, tuple(self.kinds[-3:]))

    def contract(self, v):
        ctx, s = self.ctx, self.s
        t = s['gen']
        if t in ('qs-det', 'qs-mc'):
            ctx.check(np.all(v == v[:, :, :1]), 'not-static', 'a trace varies in time')
        x = v[:, :, 0]
        if t == 'qs-det':
            n = s['traces']
            from scipy.stats import norm
            q = norm.ppf((np.arange(n) + .5) / n)
            for i, std in enumerate(s['std']):
                mask = np.ones(self.size[1], bool)
                mask[i * n:(i + 1) * n] = False
                ctx.check(np.all((x != 0).sum(axis=0) <= 1), 'correlated-traces',
                          'a trace affects more than one operator')
                own = np.sort(x[i][np.any(x[:i] != 0, axis=0) == 0])
                own = np.sort(x[i][~mask])
                ctx.check(np.all(x[i][mask] == 0.), 'correlated-traces', '')
                ref = std * q / (np.std(q) if s['corr'] else 1.)
                ctx.check(np.allclose(own, ref, rtol=1e-9, atol=1e-12), 'wrong-deviation',
                          lambda: 'samples %s instead of %s' % (own, ref))
            prev = [b for _, b in self.out if self.drawn]
            if prev:
                ctx.check(np.array_equal(prev[-1], v), 'deterministic-draw-changed', '')
            self.drawn = True
        elif t == 'qs-mc':
            if self.size[1] >= 400:
                ctx.probe('statistics')
                for i, std in enumerate(s['std']):
                    a = np.std(x[i])
                    ctx.check(.75 * std < a < 1.25 * std, 'wrong-deviation',
                              lambda: '%g instead of %g' % (a, std))
                    for j in range(i):
                        c = np.corrcoef(x[i], x[j])[0, 1]
                        ctx.check(abs(c) < .4, 'correlated-operators', str(c))
            self.fresh_random(v)
        elif t == 'colored':
            if s['samples'] * s['ext'] > 1:
                self.fresh_random(v)

    drawn = False

    def fresh_random(self, v):
        for _, b in self.out:
            if self.ever_same_state(b):
                continue
            self.ctx.check(not np.array_equal(v, b), 'not-redrawn',
                           'the same samples as at an earlier access')
        x = v.reshape(-1, v.shape[2])
        if len(x) > 1:
            self.ctx.check(not np.array_equal(x[0], x[1]), 'identical-traces', '')

    same = ()

    def ever_same_state(self, b):
        return any(b is y for y in self.same)


def execute(scen, ctx):
    FP.reset(ctx)
    gs = [G(s, ctx) for s in scen['gens']]
    compared = 0
    for n, op in enumerate(scen['ops']):
        g = gs[op['g'] % len(gs)]
        o = op['o']
        ctx.ev(o, op['g'])
        if o == 'samples':
            FP.arm(op.get('f'))
            before = np.random.get_state()
            try:
                v = g.samples()
            except Violation:
                raise
            except BaseException as e:
                fired = FP.disarm()
                if fired is None or not reported(fired, e):
                    raise Violation('unexpected-exception:samples:' + type(e).__name__,
                                    repr(e))
                ctx.probe('failed-draw')
            else:
                FP.disarm()
                compared += 1
        elif o in ('n_traces', 'n_samples_per_trace', 'n_noise_operators'):
            axis = {'n_noise_operators': 0, 'n_traces': 1, 'n_samples_per_trace': 2}[o]
            k = ctx.call(o, getattr, g.g, o)
            ctx.check(k == g.size[axis], 'wrong-size:' + o,
                      '%s instead of %s' % (k, g.size[axis]))
            if g.s['ask'] and o == 'n_traces' and (g.stored is None or g.redraw):
                g.stored = np.array(g.g._noise_samples)     # the user's own subclass
        elif o == 'foreign':
            np.random.randn(op['s'] % 7)
        elif o == 'reseed':
            np.random.seed(op['s'])
        elif o == 'repeat':
            # same state of the random source -> same draw
            st = np.random.get_state()
            c = getattr(g.g, 'count', None)
            a = g.samples()
            end = np.random.get_state()
            np.random.set_state(st)
            if c is not None:
                continue
            g.same = [b for _, b in g.out[-1:]]
            b = g.samples()
            g.same = ()
            ctx.check(np.array_equal(a, b), 'not-reproducible',
                      'the same state of the random source gave other samples')
            # continue the random stream where it was
            np.random.set_state(end)
            ctx.probe('reproduced')
            compared += 1
        elif o == 'toggle':
            g.redraw = not g.redraw
            g.g.always_redraw_samples = g.redraw
        elif o in ('copy', 'pickle'):
            if g.s['gen'] == 'scripted' and o == 'pickle':
                continue
            g.g = ctx.call(o, copy.deepcopy, g.g) if o == 'copy' else \
                pickle.loads(ctx.call(o, pickle.dumps, g.g))
            ctx.probe('copied')
        g.kinds.append(o)
        ctx.check(list(g.std) == list(g.s['std']), 'caller-list-modified', '')
    ctx.nontrivial = compared >= 2


def simplify(s):
    for k, g in enumerate(s['gens']):
        for key, val in (('no', 1), ('traces', 2), ('samples', 1), ('corr', False),
                         ('given', False), ('tuple', False), ('ext', 1)):
            if g[key] != val:
                gg = dict(g)
                gg[key] = val
                if key == 'no':
                    gg['std'] = g['std'][:1]
                if key == 'traces' and g['traces'] >= 400:
                    continue
                yield dict(s, gens=s['gens'][:k] + [gg] + s['gens'][k + 1:])
