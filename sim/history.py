"""Histories of operations on simulations (used by C01 and C02).

Each solver has a set of candidate parameter arrays: exactly one after a
successful update, two after an update that failed half-way in a simulation,
None (unspecified) after a numeric gradient or an optimisation.  Every answer
must equal the answer of a newly built simulation for (one of) the candidates.
"""
import json

import numpy as np

from . import models
from .faults import FP, reported
from .kernel import Violation, oracle_of, short_tb
from .models import Model, diff, par, plain, tau_arr

QUERIES = ('prop', 'fwd', 'rev', 'deriv')
ATTR = {'prop': 'propagators', 'fwd': 'forward_propagators',
        'rev': 'reversed_propagators', 'deriv': 'frechet_deriv_propagators',
        'prop-noise': 'propagators_noise', 'fwd-noise': 'forward_propagators_noise',
        'rev-noise': 'reversed_propagators_noise',
        'deriv-noise': 'frechet_deriv_propagators_noise'}
NOISY = ('prop-noise', 'fwd-noise', 'rev-noise', 'deriv-noise')


def gen_history(R, faults=False, max_ops=14, first=None):
    n_solvers = R.weighted((3, 1), (1, 2)) if first is None else 1
    noisy = first is not None and first['kind'] in ('mc', 'mcc')
    first = first or models.gen_model(R)
    specs = [first]
    if n_solvers == 2:
        second = models.gen_model(R)
        for k in ('nc', 'nt'):
            second[k] = first[k]
        second['tau'] = {'s': R.seed32()}
        second['drift'] = R.pick('one', 'none')
        second['tf'] = R.pick(None, {'t': 'mover', 'n': first['nc'], 'k': 2, 'b': None})
        second['amp'] = models.gen_amp(R, first['nc'])
        if second.get('ff'):
            second['ff']['nn'] = 1
        specs.append(second)
    for spec in specs:
        models.any_method(R, spec)
    # sims: list of lists of [solver, cost index]
    pairs = [[i, c] for i, s in enumerate(specs) for c in range(len(s['costs']))]
    sims = []
    for _ in range(R.int(1, 2)):
        sub = [p for p in pairs if R.chance(.7)] or [R.pick(*pairs)]
        sims.append(sub)
    seeds = [R.seed32() for _ in range(R.int(1, 3))]
    taus = [{'s': R.seed32()} for _ in range(2)]
    s = {'models': specs, 'sims': sims, 'ops': []}
    for i in range(n_solvers):
        s['ops'].append({'o': 'set', 'i': i, 'p': models.gen_par(R, seeds)})
    mix = {}
    for o, w in (('set', 4), ('setbuf', 2), ('scribble', 1), ('q', 6), ('cost', 3),
                 ('grad', 3), ('wcost', 4), ('wjac', 4), ('num', .5), ('ps', 1.5),
                 ('time', 2), ('pulse', 1), ('opt', .4), ('bad', 1.5 * faults)):
        mix[o] = w * R.pick(0, 1, 1, 2)     # swarm: some kinds are off
    if not any(mix.values()):
        mix['wcost'] = mix['q'] = 1
    recent = []
    for _ in range(R.int(3, max_ops)):
        o = R.weighted(*[(w, o) for o, w in mix.items()])
        i = R.int(0, n_solvers - 1)
        j = R.int(0, len(sims) - 1)
        p = R.pick(*recent) if recent and R.chance(.4) else models.gen_par(R, seeds)
        if recent and R.chance(.3):
            base = dict(R.pick(*recent))
            if base.get('v', 'plain') == 'plain':
                base.update(v='near', k=R.int(0, 11), d=R.pick(1e-6, -1e-6, 1e-4, 2e-8))
                p = base
            else:
                p = {'s': base['s']}
        op = {'o': o}
        if o in ('set', 'setbuf'):
            op.update(i=i, p=p)
        elif o == 'q':
            op.update(i=i, w=R.pick(*(QUERIES + NOISY if noisy else QUERIES)))
        elif o in ('cost', 'grad'):
            op.update(i=i, c=R.int(0, len(specs[i]['costs']) - 1))
        elif o in ('wcost', 'wjac', 'num', 'pulse'):
            op.update(j=j, p=p, buf=R.chance(.3))
        elif o == 'opt':
            op.update(j=j, p=p)
        elif o == 'bad':
            op.update(w=R.pick('set', 'set', 'wcost', 'wjac', 'time'), k=R.pick(*BAD), p=p)
            op.update(i=i) if op['w'] in ('set', 'time') else op.update(j=j)
        elif o == 'ps':
            op.update(i=i)
            if R.chance(.4):
                op['p'] = p
        elif o == 'time':
            t = R.pick(*taus) if R.chance(.7) else {
                's': taus[0]['s'], 'v': R.pick('near', 'rev', 'equal', 'last'),
                'k': R.int(0, 3)}
            op.update(i=i, t=t, a=R.pick('array', 'array', 'list', 'buf'))
        if 'p' in op:
            recent.append(op['p'])
            recent = recent[-4:]
        if faults and o not in ('scribble', 'bad') and R.chance(.35):
            op['f'] = gen_fault(R)
        s['ops'].append(op)
        if 'f' in op and R.chance(.6):
            s['ops'].append({k: v for k, v in op.items() if k != 'f'})
    s['iso'] = R.chance(.3)
    return s


POINTS = (('exp', 3), ('dexp', 4), ('kron', 1), ('mul', 2), ('rmul', 1.5), ('iadd', 1.5), ('amp', 3), ('amp-deriv', 1),
          ('transfer', 2), ('transfer-grad', 1), ('prefactor', 2), ('prefactor-deriv', 2),
          ('superop', 2), ('superop-deriv', 2), ('ff-hn', 2), ('ff-deriv', 1), ('diag', 1.5),
          ('spectrum', 1), ('ff-infidelity', 1), ('cost', 1.5), ('cost-late', 1),
          ('grad', 1), ('grad-late', 1))
EXCS = ('ValueError', 'RuntimeError', 'MemoryError', 'KeyboardInterrupt',
        'FloatingPointError', 'LinAlgError', 'OSError', 'UserBug', 'Cancelled',
        'ZeroDivisionError', 'KeyError')


BAD = ('cols', 'rows', 'fewer', '1d', '3d', 'text', 'none', 'nan', 'inf', 'empty', 'complex')


def malformed(kind, y):
    """An argument that is no parameter array (or time array) for this model."""
    if kind == 'cols':
        return np.concatenate([y, y[..., :1]], axis=-1)
    if kind == 'rows':
        return np.concatenate([y, y[:1]], axis=0)
    if kind == 'fewer':
        return y[:-1]
    if kind == '1d':
        return y.ravel()
    if kind == '3d':
        return y[..., None]
    if kind == 'text':
        return 'no array'
    if kind == 'none':
        return None
    if kind in ('nan', 'inf'):
        z = np.array(y)
        z.flat[z.size // 2] = float(kind)
        return z
    if kind == 'complex':
        return y + .25j
    return y[:0]


def gen_fault(R, points=POINTS):
    if R.chance(.6):       # whatever is passed at that moment
        return {'point': '*', 'nth': R.weighted((3, 1), (3, R.int(2, 6)),
                                                (3, R.int(2, 25)), (1, R.int(2, 80))),
                'exc': R.pick(*EXCS)}
    pt = R.weighted(*[(w, p) for p, w in points])
    return {'point': pt, 'nth': R.weighted((4, 1), (3, 2), (2, 3), (1, R.int(4, 9)),
                                           (1, R.int(1, 30))),
            'exc': R.pick(*EXCS)}


_SHAPES = ('cols', 'rows', 'fewer', '1d', '3d', 'text', 'none', 'empty')
REFUSE_KEEPS = {'set': _SHAPES, 'wcost': _SHAPES, 'wjac': _SHAPES}


def flat_specs(s):
    return json.dumps(s, sort_keys=True)


def guard(fn):
    try:
        return ('ok', fn())
    except Exception as e:
        return ('raises', type(e).__name__, short_tb(e))


def fresh_answer(cls, spec, y, what):
    m = Model(spec)

    def compute():
        s = m.solver()
        s.set_optimization_parameters(y.copy())
        return cls.answer(s, lambda c: m.cost(spec['costs'][c], s), what)
    return guard(compute)


def fresh_sim_answer(specs, pairs, y, what):
    ms = [Model(x) for x in specs]

    def compute():
        solvers = [m.solver() for m in ms]
        costs = [[m.cost(c, s) for c in m.spec['costs']] for m, s in zip(ms, solvers)]
        sim = History._sim(pairs, solvers, costs)
        if what == 'wcost':
            return plain(sim.wrapped_cost_functions(y.copy()))
        if what == 'wjac':
            return plain(sim.wrapped_jac_function(y.copy()))
        return plain(sim.numeric_gradient(y.copy(), delta_eps=1e-5))
    return guard(compute)


class History:
    def __init__(self, scenario, ctx, strict=True):
        self.s, self.ctx = scenario, ctx
        FP.reset(ctx)
        self.oracle = oracle_of(scenario)
        if scenario.get('iso'):
            ctx.probe('isolated-oracle')
        self.models = [Model(m) for m in scenario['models']]
        self.shape = self.models[0].shape
        self.solvers = [ctx.call('build', m.solver) for m in self.models]
        self.costs = [[m.cost(c, s) for c in m.spec['costs']]
                      for m, s in zip(self.models, self.solvers)]
        self.sims = [self._sim(pairs, self.solvers, self.costs)
                     for pairs in scenario['sims']]
        n = len(self.models)
        self.cand = [None] * n           # list of arrays, or None
        self.tau = [m.spec['tau'] for m in self.models]
        self.buf = np.zeros(self.shape)  # the caller's own array
        self.buf_used = False
        self.tbuf = np.zeros(self.shape[0])
        self.cache = {}
        self.since = [set() for _ in range(n)]
        self.compared_after_fault = 0
        self.any_fault = False

    @staticmethod
    def _sim(pairs, solvers, costs):
        from qopt.simulator import Simulator
        used = [solvers[i] for i in range(len(solvers)) if any(p[0] == i for p in pairs)]
        return Simulator(used, [costs[i][c] for i, c in pairs])

    # ------------------------------------------------------------- oracle
    def fresh(self, i, y, what):
        """Answer of a newly built simulation given only y and the times."""
        key = ('s', i, y.tobytes(), json.dumps(self.tau[i]), json.dumps(what))
        if key not in self.cache:
            self.cache[key] = self.oracle(
                fresh_answer, type(self), dict(self.models[i].spec, tau=self.tau[i]), y, what)
        return self.cache[key]

    def fresh_sim(self, j, y, what):
        key = ('w', j, y.tobytes(), json.dumps(self.tau), what)
        if key not in self.cache:
            self.cache[key] = self.oracle(
                fresh_sim_answer, [dict(m.spec, tau=t) for m, t in
                                   zip(self.models, self.tau)], self.s['sims'][j], y, what)
        return self.cache[key]

    @staticmethod
    def guard(fn):
        return guard(fn)

    @staticmethod
    def answer(solver, cost, what):
        if what[0] == 'q':
            return plain(getattr(solver, ATTR[what[1]]))
        if what[0] == 'cost':
            return plain(cost(what[1]).costs())
        if what[0] == 'grad':
            return plain(cost(what[1]).grad())
        if what[0] == 'ps':
            ps = solver.create_pulse_sequence()
            return np.concatenate([plain(ps.total_propagator).ravel(),
                                   plain(ps.eigvals).ravel(), plain(ps.dt).ravel(),
                                   plain(ps.c_coeffs).ravel(), plain(ps.n_coeffs).ravel()])
        raise ValueError(what)

    # ---------------------------------------------------------------- ops
    def run(self):
        for n, op in enumerate(self.s['ops']):
            self.ctx.ev(op['o'], n, op.get('i', op.get('j', -1)))
            getattr(self, 'op_' + op['o'])(op, n)
        return self

    def _attempt(self, op, fn):
        """Returns (ok, value).  Failures are allowed iff the fault fired."""
        FP.arm(op.get('f'))
        try:
            v = fn()
        except Violation:
            raise
        except BaseException as e:
            fired = FP.disarm()
            if fired is None:
                raise
            self.any_fault = True
            self.ctx.ev('failed', type(e).__name__)
            if not reported(fired, e):
                raise Violation('failure-misreported', 'injected %r, caller got %r'
                                % (fired, e))
            return False, e
        fired = FP.disarm()
        if fired is not None:
            self.any_fault = True
            self.ctx.probe('failure-recovered')
            if not isinstance(fired, Exception):
                raise Violation('failure-swallowed', '%r did not reach the caller' % fired)
        return True, v

    def _match(self, label, got, i_cands, fresh):
        """got equals the fresh answer of at least one candidate"""
        msgs, keep = [], []
        for y in i_cands:
            f = fresh(y)
            if f[0] != 'ok':
                msgs.append('a new simulation raises ' + f[1])
                continue
            d = diff(got, f[1])
            if d is None:
                keep.append(y)
            else:
                msgs.append(d)
        self.ctx.check(bool(keep), 'stale-or-wrong:' + label, lambda: '; '.join(msgs))
        if self.any_fault:
            self.ctx.probe('answer-after-failure')
        return keep

    def _query(self, op, i, label, what):
        if self.cand[i] is None:
            self.ctx.ev('skip')
            return
        s = self.solvers[i]
        try:
            ok, v = self._attempt(op, lambda: self.answer(
                s, lambda c: self.costs[i][c], what))
        except Violation:
            raise
        except Exception as e:
            self._both_raise(label, e, [self.fresh(i, y, what) for y in self.cand[i]])
            return
        if not ok:
            self.ctx.state('fail', label, sorted(self.since[i]))
            return
        self.cand[i] = self._match(label, v, self.cand[i],
                                   lambda y: self.fresh(i, y, what))
        self.since[i].add(label)
        self.ctx.state(label, sorted(self.since[i]), self.any_fault)

    def _both_raise(self, label, e, fs):
        """All generated requests can be answered, so this one has to be."""
        raise Violation('unexpected-exception:%s:%s' % (label, type(e).__name__),
                        short_tb(e))

    def op_q(self, op, n):
        self._query(op, op['i'], op['w'], ['q', op['w']])

    def op_cost(self, op, n):
        i, c = op['i'], op['c'] % len(self.models[op['i']].spec['costs'])
        t = self.models[i].spec['costs'][c]['t']
        self._query(op, i, 'cost-' + t, ['cost', c])

    def op_grad(self, op, n):
        i, c = op['i'], op['c'] % len(self.models[op['i']].spec['costs'])
        spec = self.models[i].spec['costs'][c]
        if not self.models[i].has_grad(spec):
            return
        self._query(op, i, 'grad-' + spec['t'], ['grad', c])

    def op_ps(self, op, n):
        i = op['i']
        if self.models[i].spec['kind'] == 'lind':
            return
        if 'p' not in op:
            self._query(op, i, 'pulse-sequence', ['ps'])
            return
        y = par(op['p'], self.shape)
        old = self.cand[i]
        ok, v = self._attempt(op, lambda: self.solvers[i].create_pulse_sequence(
            new_amps=y.copy()))
        self._adopt(i, y, ok, old)
        if ok:
            self._query({}, i, 'pulse-sequence', ['ps'])

    def _adopt(self, i, y, ok, old):
        if ok:
            if not (self.cand[i] is not None and len(self.cand[i]) == 1
                    and np.array_equal(self.cand[i][0], y)):
                self.since[i] = set()
            self.cand[i] = [y]
        elif old is not None:
            self.cand[i] = old + [y]
        else:
            self.cand[i] = None

    def op_set(self, op, n):
        i = op['i']
        y = par(op['p'], self.shape)
        ok, _ = self._attempt(op, lambda: self.solvers[i].set_optimization_parameters(
            y.copy()))
        if ok:
            self._adopt(i, y, True, None)

    def op_setbuf(self, op, n):
        i = op['i']
        y = par(op['p'], self.shape)
        self.buf[...] = y
        self.ctx.probe('caller-buffer')
        ok, _ = self._attempt(op, lambda: self.solvers[i].set_optimization_parameters(
            self.buf))
        self._unchanged(y)
        if ok:
            self._adopt(i, y, True, None)

    def op_scribble(self, op, n):
        self.buf[...] = 77. + n
        self.tbuf[...] = 3.

    def _unchanged(self, y):
        self.ctx.check(np.array_equal(self.buf, y), 'caller-array-modified',
                       'the parameter array of the caller was overwritten')

    def _arg(self, op, y):
        if op.get('buf'):
            self.buf[...] = y
            self.ctx.probe('caller-buffer')
            return self.buf
        return y.copy()

    def _sim_call(self, op, call, what):
        j = op['j']
        used = sorted({p[0] for p in self.s['sims'][j]})
        y = par(op['p'], self.shape)
        arg = self._arg(op, y)
        before = [self.cand[i] for i in used]
        if what == 'wjac' and not all(
                self.models[i].has_grad(self.models[i].spec['costs'][c])
                for i, c in self.s['sims'][j]):
            return
        try:
            ok, v = self._attempt(op, lambda: call(self.sims[j], arg))
        except Violation:
            raise
        except Exception as e:
            self._both_raise(what, e, [self.fresh_sim(j, y, what)])
            for i in used:
                self.cand[i] = None
            return
        if op.get('buf'):
            self._unchanged(y)
        for i, old in zip(used, before):
            self._adopt(i, y, ok, old)
        if what == 'num':
            for i in used:
                self.cand[i] = None
        if not ok:
            self.ctx.state('fail', what, [sorted(self.since[i]) for i in used])
            return
        v = plain(v)
        f = self.fresh_sim(j, y, what)
        if f[0] != 'ok':
            raise Violation('stale-or-wrong:' + what, 'a new simulation raises ' + f[2])
        d = diff(v, f[1]) if what != 'num' else _diff_num(v, f[1])
        self.ctx.check(d is None, 'stale-or-wrong:' + what, d or '')
        if self.any_fault:
            self.ctx.probe('answer-after-failure')
        for i in used:
            self.since[i].add(what)
        self.ctx.state(what, [sorted(self.since[i]) for i in used], self.any_fault)

    def op_wcost(self, op, n):
        self._sim_call(op, lambda s, y: s.wrapped_cost_functions(y), 'wcost')

    def op_wjac(self, op, n):
        self._sim_call(op, lambda s, y: s.wrapped_jac_function(y), 'wjac')

    def op_num(self, op, n):
        self._sim_call(op, lambda s, y: s.numeric_gradient(y, delta_eps=1e-5), 'num')

    def op_pulse(self, op, n):
        def call(s, y):
            s.pulse = y
            return s.wrapped_cost_functions()
        self._sim_call(op, call, 'wcost')

    def op_opt(self, op, n):
        """A short optimisation that uses the simulation (and its solvers)."""
        from qopt.optimize import LeastSquaresOptimizer
        j = op['j']
        used = sorted({p[0] for p in self.s['sims'][j]})
        if not all(self.models[i].has_grad(self.models[i].spec['costs'][c])
                   for i, c in self.s['sims'][j]):
            return
        y = par(op['p'], self.shape)
        for i in used:
            self.cand[i] = None
        f = self.fresh_sim(j, y, 'wjac')
        if f[0] != 'ok' or not np.all(np.isfinite(f[1])):
            return
        o = LeastSquaresOptimizer(self.sims[j], {'max_iterations': 2})
        try:
            ok, res = self._attempt(op, lambda: o.run_optimization(y.copy()))
        except Violation:
            raise
        except Exception as e:
            raise Violation('unexpected-exception:opt:' + type(e).__name__, short_tb(e))
        if not ok:
            return
        f = self.fresh_sim(j, y, 'wcost')
        d = diff(res.optim_summary.costs[0], f[1])
        self.ctx.check(d is None, 'stale-or-wrong:opt', d or '')
        for yy, c in list(zip(res.optim_summary.parameters, res.optim_summary.costs))[1:3]:
            f = self.fresh_sim(j, np.ascontiguousarray(yy), 'wcost')
            d = diff(c, f[1])
            self.ctx.check(d is None, 'stale-or-wrong:opt', d or '')
        self.ctx.probe('optimisation-in-history')

    def op_bad(self, op, n):
        """A request with a malformed argument: refused, or else unspecified."""
        if op['w'] == 'time':
            used = [op['i']]
            arg = malformed(op['k'], tau_arr({'s': op['p']['s']}, self.shape[0]))
            call = self.solvers[op['i']].set_times
        else:
            arg = malformed(op['k'], par(op['p'], self.shape))
            if op['w'] == 'set':
                used = [op['i']]
                call = self.solvers[op['i']].set_optimization_parameters
            else:
                used = sorted({p[0] for p in self.s['sims'][op['j']]})
                sim = self.sims[op['j']]
                call = (sim.wrapped_cost_functions if op['w'] == 'wcost'
                        else sim.wrapped_jac_function)
                if op['k'] == 'none':   # stands for the current parameters
                    return
        try:
            with np.errstate(all='ignore'):
                call(arg)
        except Exception as e:
            self.ctx.probe('refused')
            self.ctx.probe('refused:%s-%s' % (op['w'], op['k']))
            self.ctx.ev('refused', type(e).__name__)
            self.any_fault = True
            if op['w'] in REFUSE_KEEPS and op['k'] in REFUSE_KEEPS[op['w']]:
                return
        else:
            self.ctx.probe('accepted:%s-%s' % (op['w'], op['k']))
        for i in used:
            if op['w'] == 'time':
                self.solvers[i].set_times(tau_arr(self.tau[i], self.shape[0]))
            self.cand[i] = None

    def op_time(self, op, n):
        i = op['i']
        t = tau_arr(op['t'], self.shape[0])
        if op['a'] == 'list':
            arg = [float(x) for x in t]
        elif op['a'] == 'buf':
            self.tbuf[...] = t
            arg = self.tbuf
        else:
            arg = t.copy()
        ok, _ = self._attempt(op, lambda: self.solvers[i].set_times(arg))
        if not ok:
            # the times are unspecified now: the caller repeats the request
            self.ctx.call('set_times-retry', self.solvers[i].set_times, t.copy())
            self.tau[i] = op['t']
            self.cand[i] = None
            self.ctx.probe('retime-failed')
            return
        if op['a'] == 'buf':
            self.ctx.check(np.array_equal(self.tbuf, t), 'caller-array-modified',
                           'the time array of the caller was overwritten')
        self.tau[i] = op['t']
        self.since[i] = {'retimed'}
        self.ctx.probe('retimed')


def _diff_num(a, b):
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (a.shape, b.shape)
    with np.errstate(all='ignore'):
        d = np.nanmax(np.abs(a - b)) if a.size else 0.
    return None if not d > 1e-7 else 'numeric gradient differs by %.3g' % d
