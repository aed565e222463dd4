"""C03: all Monte Carlo answers at one point share one noise realisation."""
import json

import numpy as np

from .. import faults, models
from ..faults import FP
from ..history import History, EXCS, guard
from ..kernel import Violation, oracle_of, short_tb
from ..models import Model, diff, par, plain, tau_arr
from .c01 import simplify_models as simplify    # noqa: F401

ID = 'C03'
RUNS = {'quick': 2600, 'thorough': 60000}
SHRINK_LISTS = ('ops',)
RULE = ('a run is one Monte Carlo model (one or two solvers, possibly sharing a noise '
        'generator) and a seeded history of parameter updates, re-timings, queries and '
        'injected failures; non-trivial: at least two noisy answers at one point were '
        'matched with the logged draws of the generator')
STATE_MEASURE = ('distinct (query, queries answered before at this point, draws so far '
                 'at this point, failure before) situations')
REAL = ['qopt Monte Carlo solvers, noise generators, costs, simulator',
        'filter_functions', 'numpy random source (seeded)']
STUB = ["the user's noise generator and noise amplitude function in most runs (scripted)",
        'failing callbacks and numerical routines']
PROBES = ('isolated-oracle', 'several-answers', 'answer-after-failure', 'same-point-again', 'new-point',
          'returned-to-earlier-point', 'retimed', 'shared-generator', 'keep-samples')
ASSUMPTIONS = [
    'answers are matched with the logged draws with a relative tolerance of 1e-9',
    'after a parameter update that itself failed, a new draw for the old point is '
    'accepted']

Q = {'prop-noise': 'propagators_noise', 'fwd-noise': 'forward_propagators_noise',
     'rev-noise': 'reversed_propagators_noise',
     'deriv-noise': 'frechet_deriv_propagators_noise',
     'prop': 'propagators', 'fwd': 'forward_propagators',
     'rev': 'reversed_propagators', 'deriv': 'frechet_deriv_propagators'}
QUIET = ('prop', 'fwd', 'rev', 'deriv', 'cost-op', 'grad-op', 'cost-ff')
POINTS = (('noise-draw', 3), ('noise-draw-late', 3), ('noise-amp', 2),
          ('noise-amp-late', 2), ('exp', 3), ('dexp', 3), ('mul', 2), ('rmul', 2), ('iadd', 2), ('amp', 2),
          ('cost', 1), ('transfer', 1))


def setup():
    faults.install_numeric_points()
    models.ntg_classes()


def generate(R, tier):
    two = R.chance(.25)
    m = models.any_method(R, models.gen_mc_model(R))
    specs = [m]
    if two:
        m2 = json.loads(json.dumps(m))
        m2['ops'] = R.seed32() % 10 ** 6
        m2['deriv'] = R.chance(.4)
        specs.append(m2)
    s = {'models': specs, 'sims': [], 'ops': [], 'share': two and R.chance(.6)}
    pairs = [[i, c] for i, x in enumerate(specs) for c in range(len(x['costs']))]
    for _ in range(R.int(1, 2)):
        s['sims'].append([p for p in pairs if R.chance(.7)] or [R.pick(*pairs)])
    seeds = [R.seed32() for _ in range(R.int(1, 3))]
    pars = [models.gen_par(R, seeds) for _ in range(R.int(1, 3))]
    for i in range(len(specs)):
        s['ops'].append({'o': 'set', 'i': i, 'p': R.pick(*pars)})
    mix = {o: w * R.pick(0, 1, 1, 2) for o, w in
           (('set', 4), ('q', 8), ('cost', 3), ('grad', 3), ('wcost', 3), ('wjac', 3),
            ('time', 1), ('peek', 1))}
    if not any(mix.values()):
        mix['q'] = 1
    rate = R.pick(0, .15, .4)
    for _ in range(R.int(3, 14 if tier == 'quick' else 24)):
        o = R.weighted(*[(w, o) for o, w in mix.items()])
        i = R.int(0, len(specs) - 1)
        j = R.int(0, len(s['sims']) - 1)
        op = {'o': o}
        if o == 'set':
            op.update(i=i, p=R.pick(*pars))
        elif o == 'q':
            op.update(i=i, w=R.weighted((3, 'prop-noise'), (3, 'fwd-noise'),
                                        (2, 'rev-noise'), (2, 'deriv-noise'), (1, 'prop'),
                                        (1, 'fwd'), (.7, 'rev'), (.7, 'deriv')))
        elif o in ('cost', 'grad'):
            op.update(i=i, c=R.int(0, len(specs[i]['costs']) - 1))
        elif o in ('wcost', 'wjac'):
            op.update(j=j, p=R.pick(*pars))
        elif o == 'time':
            op.update(i=i, t={'s': R.seed32()})
        elif o == 'peek':
            op.update(i=i, w=R.pick('n_traces', 'n_noise_operators',
                                    'n_samples_per_trace', 'noise_samples'))
        if o not in ('peek',) and R.chance(rate):
            if R.chance(.5):
                op['f'] = {'point': '*', 'nth': R.int(1, R.pick(2, 8, 40)),
                           'exc': R.pick(*EXCS)}
            else:
                op['f'] = {'point': R.weighted(*[(w, p) for p, w in POINTS]),
                           'nth': R.weighted((5, 1), (2, 2), (1, R.int(3, 8))),
                           'exc': R.pick(*EXCS)}
        s['ops'].append(op)
        if 'f' in op and R.chance(.6):
            s['ops'].append({k: v for k, v in op.items() if k != 'f'})
    s['iso'] = R.chance(.3)
    return s


def fixed_answer(cls, spec, samples, y, what):
    m = Model(spec)

    def compute():
        s = m.solver({'noise_trace_generator': models.FixedNoise(samples)})
        s.set_optimization_parameters(y.copy())
        return cls.answer(s, lambda c: m.cost(spec['costs'][c], s), what)
    return guard(compute)


def fixed_jac(spec, samples, y, c):
    m = Model(spec)

    def compute():
        from qopt.simulator import Simulator
        s = m.solver({'noise_trace_generator': models.FixedNoise(samples)})
        sim = Simulator([s], [m.cost(spec['costs'][c], s)])
        return plain(sim.wrapped_jac_function(y.copy()))
    return guard(compute)


class Noisy(History):
    def __init__(self, s, ctx):
        self.s, self.ctx = s, ctx
        FP.reset(ctx)
        self.oracle = oracle_of(s)
        if s.get('iso'):
            ctx.probe('isolated-oracle')
        self.models = [Model(m) for m in s['models']]
        self.shape = self.models[0].shape
        self.gens, self.solvers = [], []
        self.any_fault = False
        for k, m in enumerate(self.models):
            n = m.spec['noise']
            num_x = m.num_x()
            if k and s.get('share'):
                g = self.gens[0]
                ctx.probe('shared-generator')
            else:
                given = None
                if n.get('given'):
                    traces = n['traces'] * (n['no'] if n['gen'] == 'qs-det' else 1)
                    given = models.rs(n['s'] + 5).uniform(-1, 1, (n['no'], traces, num_x))
                g = ctx.call('generator', models.build_ntg, n, n['no'], num_x, given)
                g.log = []
                g.given = None if given is None else np.array(given)
            self.gens.append(g)
            self.solvers.append(ctx.call('build', m.solver, {'noise_trace_generator': g}))
        self.costs = [[m.cost(c, x) for c in m.spec['costs']]
                      for m, x in zip(self.models, self.solvers)]
        self.sims = [self._sim(p, self.solvers, self.costs) for p in s['sims']]
        self.tau = [m.spec['tau'] for m in self.models]
        n = len(self.models)
        self.y = [None] * n
        self.start = [0] * n           # first draw that belongs to the point
        self.cand = [None] * n         # draws still possible for the point
        self.answered = [set() for _ in range(n)]
        self.failed = [False] * n
        self.visited = [set() for _ in range(n)]
        self.maybe = [[] for _ in range(n)]   # [(parameters, first draw)]
        self.cache = {}

    # ---- reference
    def model(self, i):
        return Model(dict(self.models[i].spec, tau=self.tau[i]))

    def fresh_answer(self, i, samples, idx, what):
        key = (i, self.y[i].tobytes(), json.dumps(self.tau[i]), id(self.gens[i]), idx,
               json.dumps(what))
        if key not in self.cache:
            m = self.model(i)
            f = self.cache[key] = self.oracle(fixed_answer, type(self), m.spec, samples,
                                              self.y[i], what)
            if what == ['q', 'prop-noise'] and f[0] == 'ok':
                ref = models.ref_noisy_propagators(m, self.y[i], samples)
                d = diff(f[1], ref)
                if d:
                    raise Violation('wrong-dynamics', 'a new simulation with fixed noise '
                                    'does not solve the noisy dynamics: ' + d)
        return self.cache[key]

    @staticmethod
    def answer(s, cost, what):
        if what[0] == 'q':
            return plain(getattr(s, Q[what[1]]))
        if what[0] == 'cost':
            return plain(cost(what[1]).costs())
        return plain(cost(what[1]).grad())

    def draws(self, i):
        """indices of the draws that may belong to the current point"""
        log = self.gens[i].log
        r = list(range(self.start[i], len(log)))
        if not self.gens[i].always_redraw_samples:
            r = [0] if log else []
        if self.cand[i] is not None:
            r = [k for k in r if k in self.cand[i]]
        return r

    def new_point(self, i, y, start):
        self.y[i] = y
        self.start[i] = start
        self.cand[i] = None
        self.answered[i] = set()
        key = y.tobytes()
        self.ctx.probe('returned-to-earlier-point' if key in self.visited[i]
                       else 'new-point')
        self.visited[i].add(key)

    def adopt(self, i, y, start):
        """The parameters y were set; `start` draws had been made before."""
        if self.y[i] is not None and np.array_equal(self.y[i], y):
            self.ctx.probe('same-point-again')
            return
        for yy, st in self.maybe[i]:      # possibly set by a failed request
            if np.array_equal(yy, y):
                start = min(start, st)
        self.failed[i] = self.failed[i] and bool(self.maybe[i])
        self.maybe[i] = []
        self.new_point(i, y, start)

    def unsure(self, i, y, start):
        """A request failed: the solver holds the old parameters or y."""
        if self.y[i] is not None:
            self.maybe[i].append((self.y[i], self.start[i]))
        self.maybe[i].append((y, start))
        self.y[i] = None
        self.failed[i] = True

    def narrow(self, i, keep, label):
        self.cand[i] = keep
        self.answered[i].add(label)
        if len(self.answered[i]) > 1:
            self.ctx.probe('several-answers')
        if self.failed[i]:
            self.ctx.probe('answer-after-failure')
        if not self.gens[i].always_redraw_samples:
            self.ctx.probe('keep-samples')
        self.ctx.state(label, sorted(self.answered[i]), min(4, len(
            self.gens[i].log) - self.start[i]), self.failed[i])

    # ---- operations
    def op_set(self, op, n):
        i = op['i']
        y = par(op['p'], self.shape)
        start = len(self.gens[i].log)
        ok, _ = self._attempt(op, lambda: self.solvers[i].set_optimization_parameters(
            y.copy()))
        if ok:
            self.adopt(i, y, start)
        else:
            # a failed update leaves the old parameters, perhaps with a new draw
            self.cand[i] = None
            self.failed[i] = True

    def _query(self, op, i, label, what):
        if self.y[i] is None:
            return
        s = self.solvers[i]
        try:
            ok, v = self._attempt(op, lambda: self.answer(
                s, lambda c: self.costs[i][c], what))
        except Violation:
            raise
        except Exception as e:
            if not self.gens[i].log:
                self.gens[i].noise_samples
            k = len(self.gens[i].log) - 1
            self._both_raise(label, e, [self.fresh_answer(
                i, self.gens[i].log[k], k, what)])
            return
        if not ok:
            self.failed[i] = True
            return
        self.match(i, v, label, lambda k: self.fresh_answer(
            i, self.gens[i].log[k], k, what))

    def match(self, i, v, label, fresh, quiet=False):
        msgs, keep = [], []
        if not self.gens[i].log:      # nothing drawn yet: a noiseless answer
            self.gens[i].noise_samples
            f = fresh(len(self.gens[i].log) - 1)
            d = diff(v, f[1]) if f[0] == 'ok' else f[1]
            self.ctx.check(d is None, 'wrong-answer:' + label, d or '')
            return
        noiseless = quiet or label in QUIET
        pool = self.draws(i)
        if noiseless:
            pool = [len(self.gens[i].log) - 1]
        for k in pool:
            f = fresh(k)
            if f[0] != 'ok':
                msgs.append('reference raises ' + f[1])
                continue
            d = diff(v, f[1])
            if d is None:
                keep.append(k)
            else:
                msgs.append('draw %d: %s' % (k, d))
        if not keep:
            # which draw does it belong to?  (for the message)
            other = [k for k in range(len(self.gens[i].log)) if k not in pool
                     and fresh(k)[0] == 'ok' and diff(v, fresh(k)[1]) is None]
            msgs.append('draws of this point: from %d, possible: %s; the answer belongs '
                        'to draws %s' % (self.start[i], self.cand[i], other))
            self.ctx.check(False, ('other-noise:' if other else 'wrong-answer:') + label,
                           '; '.join(msgs[-4:]))
        self.ctx.check(True, '')
        if not noiseless:
            self.narrow(i, keep, label)

    def op_q(self, op, n):
        self._query(op, op['i'], op['w'], ['q', op['w']])

    def op_cost(self, op, n):
        i = op['i']
        c = op['c'] % len(self.models[i].spec['costs'])
        self._query(op, i, 'cost-' + self.models[i].spec['costs'][c]['t'], ['cost', c])

    def op_grad(self, op, n):
        i = op['i']
        c = op['c'] % len(self.models[i].spec['costs'])
        spec = self.models[i].spec['costs'][c]
        if self.has_grad(i, spec):
            self._query(op, i, 'grad-' + spec['t'], ['grad', c])

    def has_grad(self, i, spec):
        return spec['t'] in ('op', 'opnoise')

    def op_wcost(self, op, n):
        self._sim_call(op, 'cost')

    def op_wjac(self, op, n):
        self._sim_call(op, 'grad')

    def _sim_call(self, op, kind):
        j = op['j']
        pairs = self.s['sims'][j]
        if kind == 'grad' and not all(self.has_grad(i, self.models[i].spec['costs'][c])
                                      for i, c in pairs):
            return
        used = sorted({p[0] for p in pairs})
        y = par(op['p'], self.shape)
        before = [len(self.gens[i].log) for i in used]
        sim = self.sims[j]
        try:
            ok, v = self._attempt(op, lambda: (
                sim.wrapped_cost_functions(y.copy()) if kind == 'cost'
                else sim.wrapped_jac_function(y.copy())))
        except Violation:
            raise
        except Exception as e:
            raise Violation('unexpected-exception:w%s:%s' % (kind, type(e).__name__),
                            short_tb(e))
        if not ok:
            for i, b in zip(used, before):
                self.unsure(i, y, b)
            return
        for i, b in zip(used, before):
            self.adopt(i, y, b)
        v = plain(v)
        if kind == 'cost':
            pos = 0
            for i, c in pairs:
                sp = self.models[i].spec
                size = sp['noise']['no'] if sp['costs'][c]['t'] == 'ff' else 1
                self.match(i, v[pos:pos + size], 'cost-' + sp['costs'][c]['t'],
                           lambda k: self.flat(self.fresh_answer(
                               i, self.gens[i].log[k], k, ['cost', c])))
                pos += size
            self.ctx.check(pos == len(v), 'wrong-answer:number-of-costs', str(v.shape))
        else:
            for n, (i, c) in enumerate(pairs):
                self.match(i, v[:, n:n + 1, :], 'jac',
                           lambda k: self.fresh_jac(i, self.gens[i].log[k], k, c),
                           self.models[i].spec['costs'][c]['t'] == 'op')

    @staticmethod
    def flat(f):
        return (f[0], np.asarray(f[1]).reshape(-1)) if f[0] == 'ok' else f

    def fresh_jac(self, i, samples, idx, c):
        key = (i, self.y[i].tobytes(), json.dumps(self.tau[i]), id(self.gens[i]), idx,
               'jac', c)
        if key not in self.cache:
            self.cache[key] = self.oracle(fixed_jac, self.model(i).spec, samples,
                                          self.y[i], c)
        return self.cache[key]

    def op_time(self, op, n):
        i = op['i']
        t = tau_arr(op['t'], self.shape[0])
        start = len(self.gens[i].log)
        ok, _ = self._attempt(op, lambda: self.solvers[i].set_times(t.copy()))
        if not ok:
            if self.y[i] is not None:
                self.unsure(i, self.y[i], len(self.gens[i].log))
            self.ctx.call('set_times-retry', self.solvers[i].set_times, t.copy())
            for k, (yy, st) in enumerate(self.maybe[i]):
                self.maybe[i][k] = (yy, start)
        self.tau[i] = op['t']
        self.ctx.probe('retimed')
        if self.y[i] is not None:
            self.new_point(i, self.y[i], start)

    def op_peek(self, op, n):
        """somebody else looks at the generator"""
        g = self.gens[op['i']]
        sp = self.models[op['i']].spec
        v = self.ctx.call('peek', getattr, g, op['w'])
        if op['w'] == 'noise_samples':
            if g.given is not None:
                self.ctx.check(np.array_equal(v, g.given), 'given-samples-changed', '')
            elif not g.always_redraw_samples:
                self.ctx.check(np.array_equal(v, g.log[0]), 'stored-samples-changed', '')


def execute(s, ctx):
    h = Noisy(s, ctx)
    h.run()
    for g in h.gens:
        if g.given is not None:
            for v in g.log:
                ctx.check(np.array_equal(v, g.given), 'given-samples-changed', '')
        elif not g.always_redraw_samples and g.log:
            for v in g.log[1:]:
                ctx.check(np.array_equal(v, g.log[0]), 'stored-samples-changed', '')
    ctx.nontrivial = ctx.probes['several-answers'] > 0
