"""C17: propagators and their derivatives solve the equations of motion."""
import numpy as np
import scipy.linalg

from .. import faults, models, scene
from ..models import plain, rs
from ..scene import NOISY, QUERIES, Scene

ID = 'C17'
RUNS = {'quick': 6000, 'thorough': 120000}
SHRINK_LISTS = ('ops',)
RULE = ('a run is one Schroedinger, Monte Carlo, control noise or Lindblad simulation in '
        'a simulated noise environment with a seeded history of updates, re-timings, '
        'changes of the noise, queries, evaluations and failures; at seeded moments all '
        'propagators and derivatives are compared, in a seeded order, with an independent '
        'solution of the equations of motion for the noise that was delivered; '
        'non-trivial: judged at two points or more')
STATE_MEASURE = ('distinct (kind, transfer function, amplitude function, method, noise '
                 'environment, preceding operations) situations')
REAL = ['qopt solvers, transfer and amplitude functions, matrices']
STUB = ['noise environment', "the user's callbacks"]
PROBES = ('kind-schro', 'kind-mc', 'kind-mcc', 'kind-lind', 'retimed', 'after-failure',
          'transfer-function', 'rectangular-amplitudes', 'operators-degenerate',
          'operators-commuting', 'noise-huge', 'noise-zero', 'matrix')
ASSUMPTIONS = [
    'tolerance 1e-8 (1e-5 for spectral methods with dissipation, 1e-4 for the numerical '
    'derivative "approx", 1e-3 for those of the propagators)',
    'exponential transfer functions use the first time step for all steps']


def setup():
    faults.install_numeric_points()
    scene.env_class()


def generate(R, tier):
    m = models.any_method(R, scene.gen_scene_model(R, ('schro', 'mc', 'mc', 'mcc', 'lind')))

    def make():
        if R.chance(.15):
            return {'o': 'matrix', 's': R.seed32(), 'd': R.int(1, 4), 'm': R.pick(
                'spectral', 'Frechet', 'approx', 'first_order', 'second_order',
                'third_order'), 'k': R.pick('herm', 'herm', 'degenerate', 'zero', 'any')}
        names = list(QUERIES) + (list(NOISY) if m['kind'] in ('mc', 'mcc') else [])
        return {'o': 'judge', 'how': R.sample(names, R.int(1, len(names)))}
    s = {'model': m, 'epoch': R.pick(*scene.EPOCHS)}
    s['ops'] = scene.gen_ops(R, m, make, R.int(1, 5 if tier == 'quick' else 9),
                             R.pick(0, .15, .3))
    return s


class Dynamics(Scene):
    def op_judge(self, op):
        ctx, y = self.ctx, self.point(op)
        if op.get('f'):
            self.attempt(op, lambda: (self.solver.set_optimization_parameters(y.copy()),
                                      getattr(self.solver, op['how'][0])))
        self.solver.set_optimization_parameters(y.copy())
        self.known = True
        ref = self.ref(y)
        s = self.spec
        for w in op['how']:
            if w.endswith('_noise') and self.env is None:
                continue
            got = plain(getattr(self.solver, w))
            want = ref.ask(w)
            rough = s['kind'] == 'lind' and s.get('method') in ('spectral', None)
            tol = 1e-5 if rough else 1e-8
            if s.get('method') == 'approx' and w.startswith('frechet'):
                tol = 1e-3
            ctx.check(got.shape == want.shape, 'shape', lambda: '%s: %s instead of %s' % (
                w, got.shape, want.shape))
            err = np.max(np.abs(got - want)) / max(1., np.max(np.abs(want)))
            ctx.check(err <= tol, 'wrong-' + w, lambda: 'deviation %.3g after %s' % (
                err, self.since))
            if s['kind'] != 'lind' and w in ('propagators', 'propagators_noise') and \
                    s.get('method') not in models.ORDERS[:3]:
                uu = np.einsum('...ij,...kj->...ik', got, got.conj())
                ctx.check(np.max(np.abs(uu - np.eye(self.model.dim))) < 1e-8,
                          'not-unitary', w)
        self.judged(y)

    def op_matrix(self, op):
        """The exponential and its derivative, by each method."""
        ctx = self.ctx
        d, r = op['d'], rs(op['s'])
        D = models.q().matrix.DenseOperator
        h = models.herm(op['s'], d)
        if op['k'] == 'degenerate':
            v = np.linalg.eigh(h)[1]
            h = (v * np.array([1., 1., -.5, -.5])[:d]) @ v.conj().T
        elif op['k'] == 'zero':
            h = np.zeros((d, d), complex)
        a = -1j * h
        if op['k'] == 'any':
            a = a + .5 * r.uniform(-1, 1, (d, d))
        e = -1j * models.herm(op['s'] + 1, d)
        order = {'first_order': 1, 'second_order': 2, 'third_order': 3}.get(op['m'])
        tau = float(np.round(r.uniform(.1, 2.), 2))
        skew = op['k'] != 'any' and op['s'] % 2 == 0
        A, E = D(a.copy()), D(e.copy())
        p = plain(A.exp(tau, method=op['m'], is_skew_hermitian=skew))
        p2, g = A.dexp(E, tau, compute_expm=True, method=op['m'], is_skew_hermitian=skew)
        g2 = A.dexp(E, tau, method=op['m'], is_skew_hermitian=skew)
        want = models.exponential(tau * a, op['m'])
        grad = models.frechet(tau * a, tau * e, op['m'])
        scale = max(1., np.max(np.abs(want)), np.max(np.abs(grad)))
        tol = scale * (1e-6 if op['m'] == 'spectral' else 1e-9)
        gtol = scale * 1e-4 if op['m'] == 'approx' else tol
        ctx.check(np.max(np.abs(p - want)) <= tol, 'exponential',
                  lambda: '%s: deviation %.3g' % (op['m'], np.max(np.abs(p - want))))
        if order is None:
            ctx.check(np.max(np.abs(plain(p2) - want)) <= tol, 'exponential-of-dexp',
                      lambda: op['m'])
        for x in (g, g2):
            ctx.check(np.max(np.abs(plain(x) - grad)) <= gtol, 'derivative',
                      lambda: '%s: deviation %.3g' % (op['m'],
                                                      np.max(np.abs(plain(x) - grad))))
        ctx.check(np.array_equal(A.data, a) and np.array_equal(E.data, e),
                  'argument-changed', lambda: op['m'])
        if op['k'] != 'any' and not order:
            ctx.check(np.max(np.abs(p @ p.conj().T - np.eye(d))) < 1e-8, 'not-unitary',
                      lambda: op['m'])
        ctx.probe('matrix')


def execute(s, ctx):
    w = Dynamics(s, ctx).run()
    ctx.nontrivial = len(w.points) > 1


def simplify(s):
    yield from scene.simpler(s)
    for n, op in enumerate(s['ops']):
        if op['o'] == 'judge' and len(op['how']) > 1:
            for i in range(len(op['how'])):
                yield dict(s, ops=s['ops'][:n] + [dict(op, how=op['how'][:i] +
                                                       op['how'][i + 1:])] + s['ops'][n + 1:])
