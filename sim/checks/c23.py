"""C23: copies, pickles and stored optimizers are faithful and independent."""
import copy
import pickle

import numpy as np

from .. import faults, history, models
from ..faults import FP, reported
from ..kernel import Violation, short_tb
from ..models import par
from .c01 import simplify_models

ID = 'C23'
RUNS = {'quick': 1800, 'thorough': 50000}
SHRINK_LISTS = ('ops',)
RULE = ('a run is one generated model and a seeded history of parameter updates, '
        're-timings, queries, failures and copies; a copy (deep copy, pickle of any '
        'protocol, of everything, of one simulator, of one solver, through an optimizer, '
        'or the optimizer stored in a pickled result) may also be taken '
        'in the middle of an evaluation, by a function of the user; original and copies '
        'are used in a seeded interleaving and each answer is compared with a newly built '
        'simulation; non-trivial: answers of two worlds were compared after they had got '
        'different parameters or times')
STATE_MEASURE = ('distinct (kind of copy, quantities queried before the copy, query after '
                 'it, in the copy or in the original) situations')
REAL = ['qopt solvers, simulator, costs, transfer and amplitude functions, optimizers, '
        'optimisation results', 'filter_functions', 'copy and pickle', 'scipy']
STUB = ['clock (virtual)', "the user's callbacks and the caller of the simulation"]
PROBES = ('isolated-oracle', 'copied', 'answer-of-copy', 'answer-of-original', 'copied-in-evaluation',
          'diverged', 'retimed', 'answer-after-failure', 'copy-of-copy')
FAULTS = ()
ASSUMPTIONS = [
    'a copy taken in the middle of an evaluation or after a failed one stands for the old '
    'or the new parameters',
    'solvers, cost functions and simulators are copied together (one object graph)',
    'a basis for filter functions that the user supplied is not covered',
    'Monte Carlo simulations whose noise samples were given (copies of drawing generators: '
    'C12)']

HOWS = ('deepcopy', 'deepcopy', 'pickle', 'pickle', 'sim-deepcopy', 'sim-pickle',
        'solver-deepcopy', 'solver-pickle', 'optimizer-deepcopy', 'optimizer-pickle',
        'result')


def setup():
    faults.install_numeric_points()


def generate(R, tier):
    first = None
    if R.chance(.25):
        first = models.gen_mc_model(R)
        first['noise']['gen'] = R.pick('fixed', 'qs')
    s = history.gen_history(R, faults=R.chance(.4), max_ops=8 if tier == 'quick' else 14,
                            first=first)
    ops, worlds = [], 1
    for n, op in enumerate(s['ops']):
        op = dict(op, W=R.int(0, 5))
        if op['o'] in ('wcost', 'wjac', 'set', 'q', 'cost', 'grad', 'pulse') and \
                R.chance(.12):
            op['mid'] = {'nth': R.pick(1, 2, 3, R.int(2, 30)), 'how': R.pick('deepcopy',
                                                                            'pickle')}
            worlds += 1
        ops.append(op)
        if n >= len(s['models']) - 1 and (R.chance(.3) or (worlds == 1 and n > 2)):
            ops.append({'o': 'copy', 'W': R.int(0, 5), 'how': R.pick(*HOWS),
                        'j': R.int(0, len(s['sims']) - 1),
                        'i': R.int(0, len(s['models']) - 1),
                        'proto': R.pick(2, 3, 4, 5), 'p': op.get('p') or
                        {'s': R.seed32()}})
            worlds += 1
            last = [o for o in ops if o['o'] in ('q', 'cost', 'grad')]
            if last and R.chance(.4):       # ask both sides the same
                for w in R.pick((0, 1, 2), (2, 1, 0), (1, 0, 2)):
                    ops.append({k: v for k, v in dict(last[-1], W=w).items()
                                if k not in ('f', 'mid')})
    s['ops'] = ops
    return s


WORLD = ('solvers', 'costs', 'sims', 'cand', 'tau', 'since', 'origin', 'sim_map')


class Worlds(history.History):
    def __init__(self, s, ctx):
        super().__init__(s, ctx)
        self.origin = None
        self.sim_map = list(range(len(self.sims)))
        self.worlds = [self.pack()]
        self.at = 0
        self.diverged = False

    def pack(self):
        return {k: getattr(self, k) for k in WORLD}

    def switch(self, w):
        self.worlds[self.at] = self.pack()
        self.at = w
        for k, v in self.worlds[w].items():
            setattr(self, k, v)

    def run(self):
        for n, op in enumerate(self.s['ops']):
            w = op.get('W', 0) % len(self.worlds)
            self.switch(w)
            self.ctx.ev(op['o'], n, w, op.get('i', op.get('j', -1)))
            if 'j' in op and op['o'] != 'copy':
                if self.sim_map[op['j']] is None:
                    continue
            if 'i' in op and op['o'] != 'copy' and \
                    self.solvers[op['i']] is None:
                continue
            if op['o'] in ('cost', 'grad') and \
                    self.costs[op['i']][op['c'] % len(self.costs[op['i']])] is None:
                continue
            mid = op.get('mid')
            if mid:
                self.mid(op, n, mid)
            else:
                getattr(self, 'op_' + op['o'])(op, n)
            if self.ctx.evaluations and len(self.worlds) > 1 and \
                    op['o'] in ('q', 'cost', 'grad', 'wcost', 'wjac', 'ps'):
                self.ctx.probe('answer-of-original' if self.origin is None
                               else 'answer-of-copy')
                self.ctx.state('use', self.origin, op['o'], op.get('w'))
                if self.different():
                    self.ctx.probe('diverged')
        return self

    def different(self):
        a = self.worlds[self.at]
        for k, b in enumerate(self.worlds):
            if k == self.at:
                continue
            for x, y in zip(self.cand, b['cand']):
                if x and y and len(x) == 1 and len(y) == 1 and \
                        not np.array_equal(x[0], y[0]):
                    return True
            if a['tau'] != b['tau']:
                return True
        return False

    # -------------------------------------------------------------- copies
    def add(self, solvers, costs, sims, sim_map, origin, cand):
        if len(self.worlds) >= 6:
            return
        if self.origin is not None:
            self.ctx.probe('copy-of-copy')
        self.worlds.append({
            'solvers': solvers, 'costs': costs, 'sims': sims, 'sim_map': sim_map,
            'cand': cand, 'tau': list(self.tau),
            'since': [set(x) for x in self.since], 'origin': origin})
        self.ctx.probe('copied')
        self.ctx.probe('copied:' + origin)
        for x in self.since:
            self.ctx.state('copy', origin, sorted(x))

    @staticmethod
    def dup(x, how, proto=4):
        if how.endswith('deepcopy'):
            return copy.deepcopy(x)
        return pickle.loads(pickle.dumps(x, protocol=proto))

    def cands(self):
        return [None if c is None else list(c) for c in self.cand]

    def from_sim(self, sim, j, origin, cand):
        """The world of a simulator alone: its solvers and costs."""
        pairs = self.s['sims'][j]
        used = [i for i in range(len(self.solvers)) if any(p[0] == i for p in pairs)]
        solvers = [None] * len(self.solvers)
        for i, s in zip(used, sim.solvers):
            solvers[i] = s
        costs = [[None] * len(c) if c is not None else None for c in self.costs]
        for (i, c), f in zip(pairs, sim.cost_funcs):
            costs[i][c] = f
            self.ctx.check(f.solver is solvers[i], 'copy-inconsistent',
                           'a cost function of the copied simulator belongs to another '
                           'solver than its own')
        sims, sim_map = [None] * len(self.sims), [None] * len(self.sims)
        sims[j], sim_map[j] = sim, j
        self.add(solvers, costs, sims, sim_map, origin, cand)

    def op_copy(self, op, n):
        how = op['how']
        j = op['j'] % len(self.sims)
        i = op['i'] % len(self.solvers)
        if how.split('-')[0] in ('sim', 'optimizer', 'result') and self.sims[j] is None:
            return
        if how.startswith('solver') and self.solvers[i] is None:
            return
        proto = op['proto']
        if how in ('deepcopy', 'pickle'):
            new = self.ctx.call('copy', self.dup, (self.solvers, self.costs, self.sims),
                                how, proto)
            self.add(*new, list(self.sim_map), how, self.cands())
        elif how.startswith('sim'):
            sim = self.ctx.call('copy', self.dup, self.sims[j], how, proto)
            self.from_sim(sim, j, how, self.cands())
        elif how.startswith('solver'):
            s = self.ctx.call('copy', self.dup, self.solvers[i], how, proto)
            solvers = [None] * len(self.solvers)
            solvers[i] = s
            m = self.models[i]
            costs = [None] * len(self.costs)
            costs[i] = [m.cost(c, s) for c in m.spec['costs']]
            self.add(solvers, costs, [None] * len(self.sims), [None] * len(self.sims),
                     how, self.cands())
        else:
            self.through_optimizer(op, j, how, proto)

    def through_optimizer(self, op, j, how, proto):
        from qopt.optimize import LeastSquaresOptimizer
        o = LeastSquaresOptimizer(self.sims[j], {'max_iterations': 1},
                                  store_optimizer=True)
        if how.startswith('optimizer'):
            o2 = self.ctx.call('copy', self.dup, o, how, proto)
            self.from_sim(o2.system_simulator, j, how, self.cands())
            return
        used = sorted({p[0] for p in self.s['sims'][j]})
        if not all(self.models[i].has_grad(self.models[i].spec['costs'][c])
                   for i, c in self.s['sims'][j]):
            return
        y = par(op['p'], self.shape)
        f = self.fresh_sim(j, y, 'wjac')
        if f[0] != 'ok' or not np.all(np.isfinite(f[1])):
            return
        for i in used:
            self.cand[i] = None
        res = self.ctx.call('run_optimization', o.run_optimization, y.copy())
        if res.optimizer is None:
            raise Violation('optimizer-not-stored', 'store_optimizer was requested')
        res2 = self.ctx.call('copy', self.dup, res, 'pickle', proto)
        self.ctx.check(res2.optimizer is not None, 'optimizer-lost',
                       'the stored optimizer is not part of the loaded result')
        self.from_sim(res2.optimizer.system_simulator, j, how,
                      [None if i in used else c for i, c in enumerate(self.cands())])

    def mid(self, op, n, mid):
        """The user's functions copy everything in the middle of the operation."""
        count, made = [0], []
        before = self.cands()
        target = (self.solvers, self.costs, self.sims)

        def hit(point):
            count[0] += 1
            if count[0] == mid['nth'] and not made:
                state = FP.save()
                FP.on_hit = None
                FP.arm(None)
                try:
                    made.append(self.dup(target, mid['how']))
                finally:
                    FP.restore(state)
        world = self.at
        sim_map = list(self.sim_map)
        FP.on_hit = hit
        try:
            getattr(self, 'op_' + op['o'])(op, n)
        finally:
            FP.on_hit = None
        if not made:
            return
        assert self.at == world
        cand = []
        for i, c in enumerate(before):
            if c is None:
                cand.append(None)
                continue
            hit_by = (op['o'] == 'set' and op['i'] == i) or (
                'j' in op and any(p[0] == i for p in self.s['sims'][op['j']]))
            cand.append(list(c) + ([par(op['p'], self.shape)]
                                   if hit_by and 'p' in op else []))
        self.ctx.probe('copied-in-evaluation')
        self.add(*made[0], sim_map, 'mid-' + mid['how'], cand)


def execute(s, ctx):
    w = Worlds(s, ctx).run()
    ctx.nontrivial = bool(ctx.probes['diverged'] and ctx.probes['answer-of-copy'])


def simplify(s):
    yield from simplify_models(s)
    for n, op in enumerate(s['ops']):
        for key in ('mid', 'f'):
            if op.get(key):
                ops = list(s['ops'])
                ops[n] = {k: v for k, v in op.items() if k != key}
                yield dict(s, ops=ops)
        if op['o'] == 'copy' and op['how'] not in ('deepcopy', 'pickle'):
            ops = list(s['ops'])
            ops[n] = dict(op, how='pickle' if op['how'].endswith('pickle') else 'deepcopy')
            yield dict(s, ops=ops)


__all__ = ['reported', 'short_tb']
