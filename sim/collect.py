"""Result collections: made-up optimisation results and the executable model."""
import copy

import numpy as np

from qopt import data_container, optimization_data, performance_statistics

from .models import rs

FIELDS = ('final_costs', 'init_parameters', 'final_parameters', 'costs', 'parameters',
          'status', 'stats')


def make_result(s):
    """s: {'s': seed, 'n': evaluations, 'k': cost values, 'nt', 'nc', 'labels',
    'scalar', 'rec', 'stats', 'big'} -> (OptimizationResult, model entry)"""
    r = rs(s['s'])
    nt, nc, k, n = s['nt'], s['nc'], s['k'], s['n']
    costs = [np.round(r.uniform(-1, 2, k), 4) for _ in range(n)]
    pars = [np.round(r.uniform(-1, 1, (nt, nc)), 4) for _ in range(n)]
    final = float(np.round(r.uniform(0, 2), 4)) if s.get('scalar') else \
        np.round(r.uniform(-1, 2, k), 4)
    if s.get('tie'):
        final = 1.25 if s.get('scalar') else np.full(k, .5)
    init = np.round(r.uniform(-1, 1, (nt, nc)), 4)
    fp = np.round(r.uniform(-1, 1, (nt, nc)), 4)
    if s.get('big'):
        pars.append(r.uniform(-1, 1, (s['big'], nc)))
        costs.append(np.round(r.uniform(-1, 2, k), 4))
    status = s.get('status', int(r.randint(-1, 6)))
    if status == 5 and s['s'] % 2:
        status = None       # as simulated annealing reports
    labels = list(s['labels'])
    st = None
    if s.get('stats', True):
        st = performance_statistics.PerformanceStatistics()
        st.start_t_opt = float(np.round(r.uniform(10, 20), 3))
        st.end_t_opt = st.start_t_opt + float(np.round(r.uniform(1, 5), 3))
        st.indices = list(labels)
        st.cost_func_eval_times = np.round(r.uniform(0, 1, (n, len(labels))), 3).tolist()
        st.grad_func_eval_times = np.round(r.uniform(0, 1, (n // 2, len(labels))), 3).tolist()
    summary = None
    if s.get('rec', True):
        summary = optimization_data.OptimizationSummary(
            indices=list(labels), iter_num=n, costs=costs, gradients=[], parameters=pars)
    res = optimization_data.OptimizationResult(
        final_cost=final, indices=labels, final_parameters=fp, init_parameters=init,
        final_grad_norm=.5, num_iter=n, termination_reason='made up', status=status,
        optimization_stats=st, optimizer=None, optim_summary=summary)
    if s.get('dict'):
        res = optimization_data.OptimizationResult.from_dict(res.to_dict())
    entry = {'final_costs': copy.deepcopy(final), 'init_parameters': init.copy(),
             'final_parameters': fp.copy(),
             'costs': copy.deepcopy(costs) if s.get('rec', True) else [],
             'parameters': copy.deepcopy(pars) if s.get('rec', True) else [],
             'status': status, 'stats': None if st is None else
             [st.start_t_opt, st.end_t_opt, list(st.indices),
              copy.deepcopy(st.cost_func_eval_times),
              copy.deepcopy(st.grad_func_eval_times)]}
    return res, labels, entry


def gen_result(R, labels, k, scalar=False):
    return {'s': R.seed32(), 'n': R.int(1, 3), 'k': k, 'nt': R.int(1, 2), 'nc': R.int(1, 2),
            'labels': labels, 'scalar': scalar, 'rec': R.chance(.8),
            'stats': R.chance(.8), 'dict': R.chance(.2), 'tie': R.chance(.1)}


def entries(dc):
    """What a DataContainer holds, as model entries."""
    n = len(dc.costs)
    lists = {'final_costs': dc.final_costs, 'init_parameters': dc.init_parameters,
             'final_parameters': dc.final_parameters, 'costs': dc.costs,
             'parameters': dc.parameters, 'status': dc.status,
             'stats': dc.optimization_statistics}
    bad = {k: len(v) for k, v in lists.items() if len(v) != n}
    if bad:
        return None, 'the lists have different lengths: %r, costs %d' % (bad, n)
    out = []
    for i in range(n):
        e = {k: v[i] for k, v in lists.items()}
        st = e['stats']
        e['stats'] = None if st is None else [
            st.start_t_opt, st.end_t_opt, list(st.indices), st.cost_func_eval_times,
            st.grad_func_eval_times]
        out.append(e)
    return out, None


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        try:
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        except TypeError:
            return False
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(
        a, b, equal_nan=a.dtype.kind in 'fc' and b.dtype.kind in 'fc'))


def differs(dc, labels, model):
    """None, or how the collection differs from the model."""
    if len(dc) != len(model):
        return 'length', '%d runs instead of %d' % (len(dc), len(model))
    got, err = entries(dc)
    if err:
        return 'lengths', err
    for i, (g, w) in enumerate(zip(got, model)):
        for k in FIELDS:
            if not same(g[k], w[k]):
                return k, 'run %d: %s is %r instead of %r' % (i, k, g[k], w[k])
    if model and list(dc.indices) != list(labels):
        return 'indices', '%r instead of %r' % (dc.indices, labels)
    return None
