"""C19: gradients are the derivatives of the costs."""
import numpy as np

from .. import faults, models, scene
from ..models import plain, rs
from ..scene import Scene

ID = 'C19'
RUNS = {'quick': 5000, 'thorough': 80000}
SHRINK_LISTS = ('ops',)
RULE = ('a run is one Schroedinger, Monte Carlo, control noise or Lindblad simulation with '
        'differentiable cost functions in a simulated noise environment (all evaluations '
        'of one environment meet the same noise) and a seeded history of updates, '
        're-timings, changes of the noise, queries, evaluations and failures; at seeded '
        'moments the gradient, asked before or after the costs, on the old or on a newly '
        'built simulation, is compared with extrapolated central differences of the costs '
        'in seeded directions; non-trivial: judged at two points or more')
STATE_MEASURE = ('distinct (kind, transfer function, amplitude function, method, noise '
                 'environment, preceding operations, costs) situations')
REAL = ['qopt cost functions, simulator, solvers, transfer and amplitude functions; '
        'filter_functions']
STUB = ['noise environment', "the user's callbacks"]
PROBES = ('kind-schro', 'kind-mc', 'kind-mcc', 'kind-lind', 'retimed', 'after-failure',
          'transfer-function', 'rectangular-amplitudes', 'cost-op', 'cost-opsup',
          'cost-state', 'cost-statesub', 'cost-leak', 'cost-opnoise', 'cost-user', 'cost-ff',
          'closest', 'grape', 'noise-huge', 'comparison', 'many-controls', 'integer-pulse')
ASSUMPTIONS = [
    'tolerance 2e-6 of the derivative (1e-4 for the spectral method with dissipation, 1e-3 '
    'for the finite differences of "approx", 5 % '
    'for "grape" at time steps of 1e-3) and a tenth of the difference of two step sizes; '
    'derivatives which differ by more than 1e-4 between the step sizes are not judged',
    'documented limits of the gradients are respected: noise amplitudes do not depend on '
    'the pulse, control noise passes linear amplitude functions only, density matrices are '
    'not differentiated, filter functions have traceless operators and a spectrum of the '
    'Hamiltonian without degeneracies',
]
DIFFERENTIABLE = ('op', 'opsup', 'state', 'statesub', 'leak', 'opnoise', 'user')


def setup():
    faults.install_numeric_points()
    scene.env_class()


def generate(R, tier):
    kinds = ('schro', 'mc', 'mc', 'mcc', 'lind')
    while True:
        m = models.any_method(R, scene.gen_scene_model(R, kinds))
        m['costs'] = [c for c in m['costs'] if c['t'] in DIFFERENTIABLE and (
            c['t'] != 'leak' or m.get('method') not in models.ORDERS[:3])]  # clipped
        if not m['costs'] or m['init'] == 'rho' or \
                m['kind'] == 'mcc' and m['np'] != m['nc']:
            continue
        break
    if m.get('noise'):
        m['noise']['ampf'] = None
    if m['kind'] == 'mcc':
        m['amp'] = None
    if m.get('lind'):
        m['lind']['nograd'] = False
    if m['kind'] != 'lind' and m.get('method') not in models.ORDERS and R.chance(.12):
        m['grape'] = True
        m['tau']['scale'] = 1e-3
    elif m['kind'] == 'schro' and R.chance(.15):
        m.pop('same', None)
        m['drift'] = 'one' if m['drift'] == 'none' else m['drift']
        m['ff'] = {'s': R.seed32() % 10 ** 6, 'nn': R.int(1, 2),
                   'form': R.pick('list', 'call'), 'ids': R.pick(None, 'rev'),
                   'deriv': True}
        if m['np'] == m['nc'] and R.chance(.3):
            # more controls than digits
            m.update(nc=R.int(11, 12), dim=2, nt=2, tf=None, amp=None)
            m['np'] = m['nc']
            m['costs'] = [c for c in m['costs'] if c['t'] == 'user']
        m['costs'].append({'t': 'ff', 'auto': False})

    def make():
        return {'o': 'judge', 'd': R.seed32(), 'how': R.pick('costs', 'grad', 'grad', 'twice'),
                'on': R.pick('same', 'same', 'fresh'), 'compare': R.chance(.1)}
    s = {'model': m, 'epoch': R.pick(*scene.EPOCHS)}
    s['ops'] = scene.gen_ops(R, m, make, R.int(1, 4 if tier == 'quick' else 8),
                             R.pick(0, .15, .3))
    for op in s['ops']:
        if op.get('t') and m.get('grape'):
            op['t']['scale'] = 1e-3
    return s


class Gradients(Scene):
    def op_judge(self, op):
        ctx, y, s = self.ctx, self.point(op), self.spec
        if op.get('f'):
            self.attempt(op, lambda: self.sim.wrapped_jac_function(y.copy()))
        if op['how'] == 'costs':
            self.sim.wrapped_cost_functions(y.copy())
        elif op['how'] == 'twice':
            self.sim.wrapped_jac_function(y.copy())
        got = plain(self.sim.wrapped_jac_function(y.copy()))
        self.known = True
        sim = self.sim if op['on'] == 'same' else self.fresh()
        if s.get('ff') and self.degenerate(y):
            ctx.probe('degenerate')
            return

        def costs(z):
            return np.array(plain(sim.wrapped_cost_functions(z)), float).flatten()
        n = len(costs(y.copy()))
        ctx.check(got.shape == (y.shape[0], n, y.shape[1]) and np.isrealobj(got), 'shape',
                  lambda: '%s for %d costs and parameters %s' % (got.shape, n, y.shape))
        r = rs(op['d'])
        one = np.zeros(y.shape)
        one[r.randint(y.shape[0]), r.randint(y.shape[1])] = 1.
        for v in (np.round(r.uniform(-1, 1, y.shape), 2), one):
            d1, d2 = [(costs(y + h * v) - costs(y - h * v)) / (2 * h) for h in (1e-3, 5e-4)]
            want = (4 * d2 - d1) / 3
            have = np.einsum('tkc,tc->k', got, v)
            self.known = True
            for k in range(n):
                gap = abs(d1[k] - d2[k])
                scale = max(1., abs(want[k]))
                if gap > 1e-4 * scale:
                    ctx.probe('rough')
                    continue
                if s.get('grape'):
                    tol = .05 * np.linalg.norm(got[:, k]) * np.linalg.norm(v) + 1e-5
                else:
                    rough = s['kind'] == 'lind' and s.get('method') in ('spectral', None)
                    tol = (1e-4 if rough else 2e-6) * scale + .1 * gap
                    if s.get('method') == 'approx':
                        tol += 1e-3 * np.linalg.norm(v) * scale
                ctx.check(abs(have[k] - want[k]) <= tol, 'wrong-gradient',
                          lambda: 'cost %d (%s): %.9g instead of %.9g after %s' % (
                              k, [c['t'] for c in s['costs']], have[k], want[k], self.since))
        if op['compare']:
            self.compare(y, got, op)
        for c in s['costs']:
            ctx.probe('cost-' + c['t'])
            if c.get('closest'):
                ctx.probe('closest')
        if s.get('grape'):
            ctx.probe('grape')
        if s['nc'] > 10:
            ctx.probe('many-controls')
        self.judged(y)

    def compare(self, y, got, op):
        """the comparison that the simulator offers to its users"""
        if self.spec.get('grape'):
            return
        sym = op['d'] % 2 == 0
        ab, rel = self.sim.compare_numeric_to_analytic_gradient(y.copy(), 1e-6, sym)
        num = self.sim.numeric_gradient(y.copy(), 1e-6, sym)
        self.ctx.check(num.shape == got.shape, 'shape-numeric', lambda: repr(num.shape))
        if self.spec['kind'] != 'lind':
            # with the default step size
            default = self.sim.numeric_gradient(y.copy(), symmetric=sym)
            self.ctx.check(np.all(np.abs(default - num) <= 1e-3 * (1 + np.abs(num).max())),
                           'default-step', lambda: '%r instead of %r' % (default, num))
        d = np.linalg.norm(num - got)
        self.ctx.check(abs(ab - d) <= 1e-8 + 1e-6 * d, 'comparison',
                       lambda: '%r instead of %r' % (ab, d))
        want = 2 * d / (np.linalg.norm(num) + np.linalg.norm(got))
        self.ctx.check(abs(rel - want) <= 1e-6 * want + 1e-8 or np.linalg.norm(got) < 1e-2,
                       'comparison', lambda: '%r instead of %r' % (rel, want))
        self.ctx.probe('comparison')
        if op['d'] % 3 == 0:
            self.sim.pulse = y.copy()       # the own pulse of the simulator
            own = self.sim.numeric_gradient(delta_eps=1e-6, symmetric=sym)
            self.ctx.check(np.array_equal(own, num), 'own-pulse', 'differs')
            self.ctx.check(np.array_equal(self.sim.pulse, y), 'own-pulse-changed', 'changed')
        elif not self.spec.get('tf'):
            whole = np.rint(y).astype(int)
            got, want = [self.sim.numeric_gradient(z, 1e-6, sym)
                         for z in (whole, whole.astype(float))]
            self.ctx.check(np.allclose(got, want, rtol=1e-6, atol=1e-6), 'integer-pulse',
                           lambda: '%r instead of %r' % (got, want))
            ab, rel = self.sim.compare_numeric_to_analytic_gradient(whole, 1e-6, sym)
            ab2, rel2 = self.sim.compare_numeric_to_analytic_gradient(
                whole.astype(float), 1e-6, sym)
            self.ctx.check(abs(ab - ab2) <= 1e-6 * (1 + ab2), 'integer-comparison',
                           lambda: '%r instead of %r' % (ab, ab2))
            self.ctx.probe('integer-pulse')

    def degenerate(self, y):
        ref = self.ref(y)
        for h in ref.h:
            e = np.sort(np.linalg.eigvalsh(h))
            if len(e) > 1 and np.min(np.diff(e)) < 2e-2:
                return True
        return False


def execute(s, ctx):
    w = Gradients(s, ctx).run()
    ctx.nontrivial = len(w.points) > 1


simplify = scene.simpler
