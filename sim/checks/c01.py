"""C01: answers depend only on current parameters, not on the history of use."""
from .. import faults, history

ID = 'C01'
RUNS = {'quick': 2400, 'thorough': 60000}
SHRINK_LISTS = ('ops',)
RULE = ('a run is one generated model (solver, transfer and amplitude function, costs) and '
        'a seeded history of parameter updates, re-timings and queries through one or '
        'two simulations sharing solvers; non-trivial: at least two different answers '
        'were compared after a parameter or time update that followed earlier queries')
STATE_MEASURE = ('distinct (query, set of quantities queried since the last update) '
                 'situations, i.e. which caches were filled when a query was answered')
REAL = ['qopt solvers, simulator, cost, transfer and amplitude functions, optimizer',
        'filter_functions', 'scipy least_squares and matrix exponentials']
STUB = ['clock (virtual)', "the user's callbacks and the caller of the simulation"]
PROBES = ('isolated-oracle', 'retimed', 'caller-buffer', 'optimisation-in-history')
ASSUMPTIONS = [
    'answers are compared with a relative tolerance of 1e-9 (absolute 1e-10 below 0.1)',
    'parameters differ by at least 1e-6 where they differ',
    'the number of time steps is not changed by re-timing a solver']


def setup():
    faults.install_numeric_points()


def generate(R, tier):
    return history.gen_history(R, faults=False, max_ops=14 if tier == 'quick' else 24)


def execute(s, ctx):
    h = history.History(s, ctx).run()
    kinds = [op['o'] for op in s['ops']]
    ctx.nontrivial = (ctx.evaluations >= 2 and len(kinds) > 3)


def simplify(s):
    yield from simplify_models(s)


def simplify_models(s):
    if len(s['sims']) > 1:
        for j in range(len(s['sims'])):
            t = dict(s, sims=[s['sims'][j]], ops=[])
            for op in s['ops']:
                if 'j' in op:
                    if op['j'] != j:
                        continue
                    op = dict(op, j=0)
                t['ops'].append(op)
            yield t
    for i, m in enumerate(s['models']):
        for key, val in (('tf', None), ('amp', None), ('ff', None), ('grape', False),
                         ('drift', 'one'), ('method', None), ('deriv', False)):
            if m.get(key) and m.get(key) != val:
                ms = [dict(x) for x in s['models']]
                ms[i][key] = val
                yield dict(s, models=ms)
    for n, op in enumerate(s['ops']):
        if isinstance(op.get('p'), dict) and op['p'].get('v'):
            ops = list(s['ops'])
            ops[n] = dict(op, p={'s': op['p']['s']})
            yield dict(s, ops=ops)
        if op.get('buf'):
            ops = list(s['ops'])
            ops[n] = dict(op, buf=False)
            yield dict(s, ops=ops)
        if op.get('f') and op['f']['nth'] > 1:
            ops = list(s['ops'])
            ops[n] = dict(op, f=dict(op['f'], nth=1))
            yield dict(s, ops=ops)
