"""C24: the minimisation routine is given the user's problem, at every request."""
import copy

import numpy as np

opt = None
ID = 'C24'
RUNS = {'quick': 2000, 'thorough': 60000}
SHRINK_LISTS = ('runs',)
RULE = ('a run is one to four optimisations by scripted drivers (any sequence of cost and '
        'gradient requests, repeated and returning points, buffers that are re-used and '
        'overwritten) or real scipy methods, with weights, bounds per parameter, partial '
        'termination settings, failing evaluations, time limits and foreign use of the '
        'simulator in between; every value handed to the driver is compared with a newly '
        'built simulator at the point it asked for; non-trivial: at least three values were '
        'compared')
STATE_MEASURE = ('distinct (minimiser, method, gradient use, abort, failure, number of '
                 'evaluations, ordinal of the run, weights) situations')
PROBES = ('aborted', 'ended-normally', 'run-failed', 'gradient-handed', 'weighted', 'bounded',
          'in-bounds', 'default-settings', 'user-settings', 'driver:real', 'driver:fake',
          'repeated-point', 'after-failure', 'not-recording', 'foreign-use')
FAULTS = ('cost', 'cost-late', 'grad', 'grad-late', 'driver-stall')
ASSUMPTIONS = ['values are compared to a relative accuracy of 1e-9 (numerical gradients: '
               '1e-3)', 'scipy methods other than trf, dogbox, lm, L-BFGS-B and Nelder-Mead '
               'get no settings']
SETTINGS = {'ls': (('min_cost_gain', 'ftol'), ('min_amplitude_change', 'xtol'),
                   ('min_gradient_norm', 'gtol'), ('max_iterations', 'max_nfev')),
            'L-BFGS-B': (('min_cost_gain', 'ftol'), ('min_gradient_norm', 'gtol'),
                         ('max_iterations', 'maxiter')),
            'Nelder-Mead': (('max_iterations', 'maxiter'),)}
DEFAULTS = None


def setup():
    global opt, REAL, STUB, DEFAULTS
    from .. import opt as o
    from qopt import optimize
    opt = o
    REAL, STUB = o.REAL, o.STUB
    DEFAULTS = copy.deepcopy(optimize.default_termination_conditions)


def generate(R, tier):
    s = opt.gen(R, tier, 'C07', runs=(1, 4), nsteps=10 if tier == 'quick' else 20)
    for m in s['sims']:
        for c in m['costs']:
            c.pop('script', None)
            if m.get('numjac'):
                c.pop('pos', None)      # (has kinks)
    for o in s['opts']:
        o['save'] = R.chance(.5)
        if R.chance(.6):
            o['tc'] = {k: R.pick(1e-5, 1e-6, 1e-4, 3e-9) for k in
                       ('min_gradient_norm', 'min_cost_gain', 'min_amplitude_change')
                       if R.chance(.5)}
        if R.chance(.2):
            o['tcdrop'] = ['max_iterations']
        if o['method'] in ('trf', 'dogbox', 'L-BFGS-B', 'Nelder-Mead') and R.chance(.5):
            o['pbounds'] = R.seed32() % 10 ** 6
            o.pop('bounds', None)
    for r in s['runs']:
        d = r['driver']
        if d['d'] == 'fake' and len(d['steps']) > 1 and R.chance(.4):
            for _ in range(R.int(1, 3)):    # the same points again
                d['steps'].append(dict(R.pick(*d['steps'])))
        if R.chance(.2):
            r['before'] = R.pick('cost', 'jac', 'both')
    s['iso'] = R.chance(.4)
    return s


def close_to(a, b, rtol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= rtol * np.maximum(1., np.max(np.abs(b), initial=0.))))


def execute(s, ctx):
    lab = opt.Lab(s, ctx)
    failed = False
    for i, r in enumerate(s['runs']):
        if r.get('before'):
            k = s['opts'][r['opt']]['sim']
            y = np.full((s['sims'][k]['nt'], s['sims'][k]['nc']), .25)
            if r['before'] in ('cost', 'both'):
                lab.sims[k].wrapped_cost_functions(y)
            if r['before'] in ('jac', 'both'):
                lab.sims[k].wrapped_jac_function(y)
            ctx.probe('foreign-use')
        rr = lab.run(i, r)
        if failed:
            ctx.probe('after-failure')
        failed = failed or rr.exc is not None
        if rr.driver is not None and rr.driver.calls:
            judge(rr, ctx, lab)
    opt.close()


def judge(rr, ctx, lab):
    d, o, s = rr.driver, rr.o, rr.s
    shape = (s['nt'], s['nc'])
    ctx.check(d.calls == 1, 'driver-calls', '%d minimisations in one run' % d.calls)
    ctx.check(opt.same(d.x0, rr.init.T.flatten()), 'start',
              lambda: 'the driver starts at %r, the initial pulse is %r' % (d.x0, rr.init))
    if not o['save']:
        ctx.probe('not-recording')
    settings(d, o, ctx)
    bounds(rr, d, o, s, ctx)
    w = o.get('weights')
    w = np.ones(opt.n_out(s)) if w is None else np.array(
        [w[i % len(w)] for i in range(opt.n_out(s))])
    if o.get('weights'):
        ctx.probe('weighted')
    usable = o['method'] in ('trf', 'dogbox', 'lm', 'L-BFGS-B')
    ctx.check(d.has_jac == bool(o['usejac']) if usable else True, 'gradient-use',
              'a gradient function was %s, use_jacobian_function=%r'
              % ('handed over' if d.has_jac else 'not handed over', o['usejac']))
    if not o['usejac']:
        ctx.check(not [e for e in rr.log if e['kind'] == 'grad'], 'gradient-unwanted',
                  'gradients were evaluated without being asked for')
    seen = {}
    for is_fun, x, v in d.asked:
        if x.tobytes() in seen:
            ctx.probe('repeated-point')
        else:
            seen[x.tobytes()] = lab.reference(rr, x.reshape(shape[::-1]).T)
        c, g = seen[x.tobytes()]
        if is_fun:
            want = c * w
            if o['o'] == 'sc':
                want = np.sum(want)
            ctx.check(close_to(v, want), 'cost-handed',
                      lambda: 'the driver asked for the costs at %r and got %r instead of %r'
                      % (x, v, want))
        else:
            ctx.probe('gradient-handed')
            want = np.stack([g[:, k, :].T.flatten() for k in range(g.shape[1])])
            want = want * w[:, None]
            if o['o'] == 'sc':
                want = want.sum(0)
            ctx.check(close_to(v, want, 1e-3 if s.get('numjac') else 1e-9),
                      'gradient-handed', lambda: 'the driver asked for the gradient at %r '
                      'and got %r instead of %r' % (x, v, want))
    if len(d.asked) > 2:
        ctx.nontrivial = True


def settings(d, o, ctx):
    names = SETTINGS['ls'] if o['o'] == 'ls' else SETTINGS.get(o['method'], ())
    given = dict(d.args)
    given.update(given.pop('options', None) or {})
    ctx.check(str(given.get('method', o['method'])).lower() == o['method'].lower(),
              'method', repr(given.get('method')))
    mine = dict(DEFAULTS)
    mine['max_iterations'] = o.get('maxiter', 8)
    mine.update(o.get('tc') or {})
    for k in o.get('tcdrop') or ():
        mine[k] = DEFAULTS[k]
    for key, name in names:
        ctx.probe('default-settings' if mine[key] == DEFAULTS[key] else 'user-settings')
        ctx.check(given.get(name) == mine[key], 'setting:' + key,
                  lambda: '%s=%r was handed over, %s is %r' % (name, given.get(name), key,
                                                              mine[key]))
    # nothing else limits or changes the problem
    for name in ('maxfun', 'maxfev', 'maxls') if o['o'] == 'sc' else ():
        v = given.get(name)
        ctx.check(v is None or v >= (20 if name == 'maxls' else 15000)
                  or v == mine.get('max_cost_func_calls'),
                  'other-limit', lambda: '%s=%r was handed over' % (name, v))
    ctx.check(given.get('tol') is None and given.get('loss', 'linear') == 'linear'
              and not len(given.get('constraints') or ()), 'other-problem', repr(given))


def bounds(rr, d, o, s, ctx):
    n = s['nt'] * s['nc']
    if o.get('pbounds') is not None:
        lo, hi = opt.param_bounds(o['pbounds'], n)
    elif o.get('bounds'):
        lo, hi = np.full(n, -o['bounds']), np.full(n, o['bounds'])
    else:
        lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
    b = d.args.get('bounds')
    if hasattr(b, 'lb'):
        b = (b.lb, b.ub) if o['o'] == 'ls' else list(zip(b.lb, b.ub))
    if o['o'] == 'sc':
        b = [(None, None)] * n if b is None else list(b)
        b = (np.array([-np.inf if x is None else x for x, _ in b]),
             np.array([np.inf if x is None else x for _, x in b]))
    elif b is None:
        b = (-np.inf, np.inf)
    for mine, theirs in zip((lo, hi), b):
        ctx.check(opt.same(np.broadcast_to(np.asarray(theirs, float), (n,)), mine), 'bounds',
                  lambda: '%r was handed over instead of %r' % (theirs, mine))
    if np.all(np.isinf(lo)) and np.all(np.isinf(hi)):
        return
    ctx.probe('bounded')
    if rr.spec['driver']['d'] != 'real' or o['method'] not in (
            'trf', 'dogbox', 'L-BFGS-B', 'Nelder-Mead'):
        return
    for e in rr.log:
        if e['nested']:
            continue
        x = e['y'].T.flatten()
        ctx.check(bool(np.all(x >= lo - 1e-12) and np.all(x <= hi + 1e-12)), 'out-of-bounds',
                  lambda: 'evaluated at %r, bounds %r, %r' % (x, lo, hi))
        ctx.probe('in-bounds')


def simplify(s):
    yield from opt.simplify(s)
    for i, o in enumerate(s['opts']):
        for key in ('tc', 'tcdrop', 'pbounds'):
            if o.get(key) is not None:
                yield dict(s, opts=s['opts'][:i] + [
                    {k: v for k, v in o.items() if k != key}] + s['opts'][i + 1:])
