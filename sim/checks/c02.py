"""C02: a failed or interrupted evaluation never poisons later answers."""
from .. import faults, history
from .c01 import simplify_models as simplify    # noqa: F401

ID = 'C02'
RUNS = {'quick': 2400, 'thorough': 60000}
SHRINK_LISTS = ('ops',)
RULE = ('a run is one generated model and a seeded history of parameter updates, '
        're-timings and queries, in which about a third of the operations get an '
        'exception injected at the nth passage of a fault point and others get malformed '
        'arguments; non-trivial: a fault '
        'fired and at least one answer was compared after it')
STATE_MEASURE = ('distinct (query or failed query, set of quantities queried since the '
                 'last update, whether a failure preceded) situations')
REAL = ['qopt solvers, simulator, cost, transfer and amplitude functions, optimizer',
        'filter_functions', 'scipy least_squares and matrix exponentials']
STUB = ['clock (virtual)', "the user's callbacks and the caller of the simulation",
        'failing numerical routines: the exception replaces the call']
PROBES = ('isolated-oracle', 'answer-after-failure', 'retime-failed', 'refused')
FAULTS = ()
ASSUMPTIONS = [
    'failures and interrupts are injected at calls of user functions and numerical '
    'routines, not between arbitrary byte codes',
    'after a failed update through a simulation, old and new parameters are both '
    'accepted as current until they are set again']


def setup():
    faults.install_numeric_points()


def generate(R, tier):
    return history.gen_history(R, faults=True, max_ops=12 if tier == 'quick' else 20)


def execute(s, ctx):
    history.History(s, ctx).run()
    ctx.nontrivial = ctx.probes['answer-after-failure'] > 0
