"""C20: costs are what they are defined to be, and lie in their physical range."""
import numpy as np
import scipy.linalg

from .. import faults, models, scene
from ..models import plain, rs
from ..scene import Scene

ID = 'C20'
RUNS = {'quick': 6000, 'thorough': 120000}
SHRINK_LISTS = ('ops',)
RULE = ('a run is one Schroedinger, Monte Carlo, control noise or Lindblad simulation with '
        'one to three cost functions in a simulated noise environment and a seeded history '
        'of updates, re-timings, changes of the noise, queries and failures; at seeded '
        'moments every cost is compared with its definition, evaluated from an independent '
        'solution of the equations of motion with the delivered noise, with its physical '
        'range, and with zero for the operation that was really performed; non-trivial: '
        'judged at two points or more')
STATE_MEASURE = ('distinct (kind, transfer function, amplitude function, method, noise '
                 'environment, preceding operations, costs) situations')
REAL = ['qopt cost functions, simulator, solvers, transfer and amplitude functions']
STUB = ['noise environment', "the user's callbacks"]
PROBES = ('kind-schro', 'kind-mc', 'kind-mcc', 'kind-lind', 'retimed', 'after-failure',
          'perfect', 'cost-op', 'cost-opsup', 'cost-state', 'cost-statesub', 'cost-leak',
          'cost-leakliou', 'cost-opnoise', 'cost-statenoise', 'cost-mcliou',
          'cost-incleak', 'noise-huge', 'noise-zero', 'closest', 'rescaled', 'measure-operation', 'measure-channel',
          'measure-state', 'measure-norm', 'measure-angle-axis', 'measure-average')
ASSUMPTIONS = ['tolerance 1e-7 (1e-5 for spectral methods with dissipation)',
               'costs of the user are not judged here']


def setup():
    faults.install_numeric_points()
    scene.env_class()


def generate(R, tier):
    m = scene.gen_scene_model(R, ('schro', 'mc', 'mc', 'mcc', 'lind'))

    def make():
        return {'o': 'judge', 'how': R.pick('simulator', 'separate', 'reverse', 'twice'),
                'perfect': R.chance(.4), 'measure': R.chance(.3), 's': R.seed32()}
    s = {'model': m, 'epoch': R.pick(*scene.EPOCHS)}
    s['ops'] = scene.gen_ops(R, m, make, R.int(1, 5 if tier == 'quick' else 9),
                             R.pick(0, .15, .3))
    return s


class Costs(Scene):
    def op_judge(self, op):
        ctx, y = self.ctx, self.point(op)
        s = self.spec
        if op.get('f'):
            self.attempt(op, lambda: self.sim.wrapped_cost_functions(y.copy()))
        if op['how'] in ('simulator', 'twice'):
            v = plain(self.sim.wrapped_cost_functions(y.copy()))
            if op['how'] == 'twice':
                v = plain(self.sim.wrapped_cost_functions(y.copy()))
        else:
            self.solver.set_optimization_parameters(y.copy())
            n = len(self.costs)
            order = range(n) if op['how'] == 'separate' else range(n)[::-1]
            one = {i: plain(self.costs[i].costs()).flatten() for i in order}
            v = np.concatenate([one[i] for i in range(n)])
        self.known = True
        ref = self.ref(y)
        rough = s['kind'] == 'lind' and s.get('method') in ('spectral', None)
        tol = 1e-5 if rough else 1e-7
        pos = 0
        for c in s['costs']:
            want = ref.cost(c)
            if want is None:
                pos += c['n']
                continue
            got = v[pos]
            pos += 1
            name = c['t']
            ctx.probe('cost-' + name)
            if c.get('closest'):
                ctx.probe('closest')
            if c.get('rescale'):
                ctx.probe('rescaled')
            want = float(np.squeeze(want))
            ctx.check(np.isrealobj(got) and abs(got - want) <= tol, 'wrong-' + name,
                      lambda: '%s: %r instead of %r after %s' % (c, got, want, self.since))
            ctx.check(-1e-9 - (tol if rough else 0) <= got <= 1 + 1e-9 + (tol if rough else 0),
                      'range-' + name, lambda: '%r' % got)
        ctx.check(pos == len(v), 'number-of-costs', lambda: '%d instead of %d' % (len(v), pos))
        if op['perfect']:
            self.perfect(ref, tol)
        if op.get('measure'):
            self.measure(ref, op['s'], tol)
        self.judged(y)

    def measure(self, ref, seed, tol):
        """the measures themselves, given operators or arrays"""
        cf = models.q().cost_functions
        s, ctx, d = self.spec, self.ctx, self.model.dim
        D = models.q().matrix.DenseOperator
        r = rs(seed)
        wrap = D if seed % 2 else np.array
        final = self.solver.forward_propagators[-1]
        want = ref.final()

        def close(name, got, val, tol=tol):
            got, val = np.asarray(got), np.asarray(val)
            ctx.check(got.shape == val.shape and np.max(np.abs(got - val)) <= tol,
                      'wrong-' + name, lambda: '%s instead of %s' % (got, val))
            ctx.probe('measure-' + name)
        comp = [int(i) for i in r.permutation(d)[:r.randint(1, d + 1)]]
        n = len(comp)
        t = models.unitary(seed, n)
        if s['kind'] == 'lind':
            k = np.zeros((d, d), complex)
            k[np.ix_(comp, comp)] = t
            close('channel', cf.entanglement_fidelity_super_operator(
                wrap(t), wrap(want), computational_states=comp),
                np.trace(np.kron(k.conj(), k).conj().T @ want).real / n ** 2)
            return
        if s.get('init') == 'ket':
            v = models.ketv(seed, n)
            close('state', cf.state_fidelity(
                wrap(v.conj().T), final, computational_states=comp),
                abs(np.vdot(v, want[comp])) ** 2)
            return
        close('operation', cf.entanglement_fidelity(
            wrap(t), wrap(want), computational_states=comp),
            abs(np.trace(t.conj().T @ want[np.ix_(comp, comp)])) ** 2 / n ** 2)
        phase = want[0, 0] / abs(want[0, 0])
        target = models.unitary(seed + 1, d)
        if abs(want[0, 0]) > 1e-3:
            diff = want / phase - target
            norm = cf.OperatorMatrixNorm(self.solver, D(target.copy()), mode='scalar')
            close('norm', norm.costs(), np.sum(np.abs(diff)))
            norm = cf.OperatorMatrixNorm(self.solver, D(target.copy()), mode='vector')
            close('norm-vector', norm.costs(),
                  np.concatenate((diff.real.flatten(), diff.imag.flatten())))
            ctx.check(len(norm.label) == 2 * d * d, 'labels', lambda: repr(norm.label))
        if d == 2:
            close('average', np.real(cf.averge_gate_fidelity(final, D(target.copy()))),
                  (2 + abs(np.trace(target.conj().T @ want)) ** 2) / 6)
            for u in (want, rotation(r)):
                angle, axis = cf.angle_axis_representation(wrap(u))
                ctx.check(-1e-9 <= angle <= np.pi + 1e-9 and
                          abs(np.linalg.norm(axis) - 1) < 1e-4, 'range-angle-axis',
                          lambda: '%r %r' % (angle, axis))
                back = turn(-angle, axis)
                k = np.argmax(np.abs(u))
                back = back * (u.flat[k] / back.flat[k])
                close('angle-axis', back, u, 1e-4)

    def perfect(self, ref, tol):
        """the infidelity with respect to what was done vanishes"""
        cf = models.q().cost_functions
        D = models.q().matrix.DenseOperator
        s, ctx = self.spec, self.ctx
        if s['kind'] == 'lind':
            return
        final = ref.final() * np.exp(1.3j)
        if s.get('init') == 'ket':
            c = cf.StateInfidelity(self.solver, target=D(final.conj().T))
        else:
            c = cf.OperationInfidelity(self.solver, target=D(final))
        got = float(c.costs())
        ctx.check(abs(got) <= tol, 'perfect-operation', lambda: '%r' % got)
        if s['kind'] in ('mc', 'mcc') and not np.any(ref.noise) and s.get('init') != 'ket':
            got = float(cf.OperationNoiseInfidelity(self.solver, target=None).costs())
            ctx.check(abs(got) <= tol, 'perfect-without-noise', lambda: '%r' % got)
        ctx.probe('perfect')


PAULI = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])


def turn(angle, axis):
    return scipy.linalg.expm(-.5j * angle * np.einsum('i,ijk->jk', axis, PAULI))


def rotation(r):
    """by any angle, also tiny ones, about any axis, with any phase"""
    axis = r.normal(size=3) * r.choice([0., 1e-7, 1., 1.], 3)
    axis = axis / np.linalg.norm(axis) if np.any(axis) else np.array([0., 0., 1.])
    angle = r.choice([r.uniform(0, 6.3), 10. ** r.uniform(-7, -3), np.pi, 2 * np.pi - 1e-5])
    return turn(angle, axis) * np.exp(1j * r.uniform(0, 7))


def execute(s, ctx):
    w = Costs(s, ctx).run()
    ctx.nontrivial = len(w.points) > 1


simplify = scene.simpler
