"""C15: re-timed transfer functions equal newly built ones."""
import copy
import pickle

import numpy as np

from .. import models
from ..faults import FP, reported
from ..kernel import Violation, oracle_of

ID = 'C15'
RUNS = {'quick': 5000, 'thorough': 150000}
SHRINK_LISTS = ('ops',)
RULE = ('a run is one transfer function (nested up to three levels) and a seeded history of '
        'setting times (any number and duration of steps, every accepted form), pulses, '
        'gradients, transfer matrices, copies, refused and failing calls (failing '
        'allocations in every numpy routine, failing user code) and a caller that '
        'overwrites all arrays it passed or received; every answer is compared with a newly '
        'built transfer function; non-trivial: an answer was compared after the times had '
        'been set again or after a failure')
STATE_MEASURE = ('distinct (kind of transfer function, query, numbers of steps before and '
                 'after, preceding operation, failure) situations')
REAL = ['all qopt transfer functions that can be constructed', 'numpy, scipy.ndimage',
        'copy and pickle']
STUB = ["a user's transfer function (fault points)", 'numpy inside qopt.transfer_function '
        'fails on demand']
PROBES = ('isolated-oracle', 're-timed', 'fewer-steps', 'more-steps', 'same-number', 'same-times', 'list',
          'column', 'strided', 'integers', 'absolute', 'pre-timed', 'refused-times',
          'refused-pulse', 'failed-call', 'failed-gradient', 'failed-matrix', 'failed-times',
          'after-failure', 'copied', 'pickled', 'scribbled', 'used-before-times',
          'matrix', 'depth-3', 'kept-output', 'overwritten', 'sibling')
FAULTS = ('numpy', 'transfer', 'transfer-grad')
ASSUMPTIONS = [
    'after a set_times that failed half-way (not: was refused) the times have to be set '
    'again before the transfer function is used',
    'custom transfer functions with explicit output times, and the deprecated Gaussian '
    'transfer function, are not covered',
    'the identity returns the very array it was given']

LEAVES = ('id', 'over', 'mover', 'exp', 'conv', 'gauss', 'custom', 'scale')
ROUTINES = ('repeat', 'concatenate', 'einsum', 'zeros', 'ones', 'sum', 'expand_dims',
            'reshape', 'eye', 'exp', 'squeeze', 'atleast_1d', 'copy', 'array', 'diff')


class FailingNumpy:
    """numpy as seen by qopt.transfer_function: every routine can fail."""

    def __init__(self):
        for n in ROUTINES:
            setattr(self, n, self._wrap(getattr(np, n)))

    @staticmethod
    def _wrap(real):
        def fn(*a, **k):
            FP.hit('numpy')
            return real(*a, **k)
        return fn

    def __getattr__(self, name):
        return getattr(np, name)


def setup():
    tfm = models.q().transfer_function
    models._scale_tf_class()
    tfm.np = FailingNumpy()


def gen_times(R, prev):
    how = R.weighted((3, 'new'), (2, 'same-number'), (1, 'same'), (1, 'scaled'))
    if prev is None or how == 'new':
        n = R.int(1, 6)
        if R.chance(.5):
            return [R.pick(.1, .25, .5, 1., 2.)] * n
        return [R.pick(.1, .25, .5, 1., 2., 3.) for _ in range(n)]
    if how == 'same':
        return list(prev)
    if how == 'scaled':
        return [x * 2 for x in prev]
    return [R.pick(.1, .25, .5, 1., 2.) for _ in prev]


def generate(R, tier):
    n = R.weighted((3, 1), (4, 2), (2, 3))
    cn = R.int(1, 4)
    tf = models.gen_tf(R, n, custom_nt=cn)
    if tf['t'] == 'custom' and R.chance(.5):
        tf['b'] = R.pick(['n', 1], ['x', 1], ['right_n', 1], ['n', 2],
                          ['right_n', 2], ['x', 2])
    if R.chance(.25):
        # deeper
        other = models.gen_tf(R, n, depth=1)
        tf = {'t': 'cat', 'a': tf, 'c': other} if R.chance(.5) else \
            {'t': 'cat', 'a': other, 'c': tf}
    s = {'tf': tf, 'n': n, 'pre': R.chance(.25), 'ops': []}
    s['pretimes'] = gen_times(R, None)
    if models.tf_uses(tf, 'custom') and R.chance(.7):
        s['pretimes'] = (s['pretimes'] * 4)[:cn]
    prev = s['pretimes'] if s['pre'] else None
    for i in range(R.int(4, 14 if tier == 'quick' else 30)):
        o = R.weighted((4, 'times'), (5, 'call'), (3, 'grad'), (2, 'matrix'), (1, 'info'),
                       (.8, 'refuse-times'), (.8, 'refuse-pulse'), (.4, 'copy'),
                       (.3, 'pickle'), (.4, 'overwrite'), (1., 'sibling'))
        if i == 0 and prev is None and R.chance(.9):
            o = 'times'
        op = {'o': o, 's': R.seed32()}
        if o == 'times':
            prev = gen_times(R, prev)
            if models.tf_uses(tf, 'custom') and R.chance(.7):
                prev = (prev * 4)[:cn]
            op['t'] = prev
            op['form'] = R.weighted((4, 'array'), (1, 'list'), (1, 'column'), (1, 'strided'),
                                    (1, 'ro'), (1, 'ints'), (1, 'absolute'), (.5, 'abslist'))
        elif o == 'sibling':
            # another transfer function of the same kind that differs in a parameter
            op['tf'] = sibling(R, tf)
            op['t'] = list(prev) if prev and R.chance(.8) else gen_times(R, prev)
            op['scaled'] = R.chance(.2)
        elif o == 'refuse-times':
            op['how'] = R.pick('tuple', 'str', 'none', '2d', 'unsorted')
        elif o == 'refuse-pulse':
            op['how'] = R.pick('steps', 'ctrls', '1d', '3d', 'ints', 'grad')
        op['scribble'] = R.chance(.6)
        if o in ('call', 'grad', 'matrix', 'times') and R.chance(.2):
            user = models.tf_uses(tf, 'scale')
            op['f'] = {'point': R.weighted((5, 'numpy'), (4 * user, 'grad' == o and
                                                          'transfer-grad' or 'transfer')),
                       'nth': R.int(1, 5) if R.chance(.7) else R.int(1, 20),
                       'exc': R.pick('MemoryError', 'KeyboardInterrupt', 'UserBug',
                                     'ValueError')}
        s['ops'].append(op)
    s['iso'] = R.chance(.9 if any(op['o'] == 'sibling' for op in s['ops']) else .3)
    if s['iso'] and R.chance(.3):
        # the sibling comes first
        first = {'o': 'sibling', 's': R.seed32(), 'tf': sibling(R, tf), 'scaled': False,
                 't': next((op['t'] for op in s['ops'] if op['o'] == 'times'), [1., 1.]),
                 'scribble': False}
        s['ops'].insert(0, first)
    return s


VARIED = {'k': (1, 2, 3), 'rise': (.1, .3, .8), 'sigma': (.4, .8), 'f': (.5, 1.5, 2.),
          'kernel': ([.5, 1., .5], [.2, .6, .3], [1.], [.3, .5, .2]), 'off': (None, .1, .25)}


def sibling(R, spec):
    """The same transfer function with other parameters."""
    out = copy.deepcopy(spec)
    leaves = []

    def walk(x):
        if 'a' in x:
            walk(x['a'])
            walk(x['c'])
        else:
            leaves.append(x)
    walk(out)
    x = R.pick(*leaves)
    if x['t'] == 'custom':
        x['s'] = R.seed32()
    keys = [k for k in x if k in VARIED and not (k == 'k' and len(leaves) > 1)]
    if keys:
        k = R.pick(*sorted(keys))
        other = [v for v in VARIED[k] if v != x[k]]
        x[k] = R.pick(*other)
    return out


def build(spec, times=None, arrays=None):
    """Build a transfer function; with times: from parts that were timed before.
    The arrays the caller gave are collected."""
    tfm = models.q().transfer_function
    if spec['t'] in LEAVES:
        if spec['t'] == 'conv':
            a = np.array(spec['kernel'])
            if spec['n'] > 1 and a.size > 1:
                a = np.outer(a, np.ones(1))
            tf = tfm.ConvolutionTF(kernel=a, num_ctrls=spec['n'])
        elif spec['t'] == 'custom':
            k, b = spec['x'] // spec['y'], spec.get('b')
            x = spec['x']
            if b is not None:
                x += {'n': 2 * b[1], 'x': 2 * b[1] * k, 'right_n': b[1]}[b[0]]
            a = np.round(models.rs(spec['s']).uniform(-1, 1, (x, spec['y'], spec['n'])), 3)
            tf = tfm.CustomMTF(a, num_ctrls=spec['n'], offset=spec.get('off'),
                               bound_type=None if b is None else tuple(b))
        else:
            a, tf = None, models.build_tf(spec)
        if arrays is not None and a is not None:
            arrays.append(a)
        if times is not None:
            tf.set_times(np.array(times))
        return tf
    a = build(spec['a'], times, arrays)
    c = build(spec['c'], None if times is None else
              a.x_times if spec['t'] in ('cat', 'mcat') else times, arrays)
    return {'cat': tfm.ConcatenateTF, 'mcat': tfm.ConcatenateMTF, 'par': tfm.ParallelTF,
            'mpar': tfm.ParallelMTF}[spec['t']](a, c)


class Raised:
    def __init__(self, e):
        self.e = e


def attempt(f, *a):
    try:
        return f(*a)
    except Violation:
        raise
    except BaseException as e:
        return Raised(e)


def twin(spec, times):
    tf = build(spec)
    if times is not None:
        r = attempt(tf.set_times, np.array(times))
        if isinstance(r, Raised):
            return r
    return tf


def wanted(spec, times, f, arg):
    tf = twin(spec, times)
    r = tf if isinstance(tf, Raised) else attempt(f, tf, arg)
    return Raised(RuntimeError(repr(r.e))) if isinstance(r, Raised) else np.array(r) \
        if isinstance(r, np.ndarray) else r


def q_call(tf, a):
    return tf(a)


def q_grad(tf, a):
    return tf.gradient_chain_rule(a)


def q_matrix(tf, a):
    return tf.transfer_matrix


def q_look(tf, a=None):
    return {'num_x': tf.num_x, 'x_times': np.array(
        [-1.] if tf.x_times is None else tf.x_times, float), 'num_ctrls': tf.num_ctrls}


def q_padding(tf, a=None):
    return tf.num_padding_elements


def nodes(spec):
    out = [spec['t']]
    for k in ('a', 'c'):
        if isinstance(spec.get(k), dict):
            out += nodes(spec[k])
    return out


class History:
    def __init__(self, s, ctx):
        self.s, self.ctx = s, ctx
        self.oracle = oracle_of(s)
        if s.get('iso'):
            ctx.probe('isolated-oracle')
        self.kept = []
        self.arrays = []
        self.times = None
        self.history = []
        self.usable = True
        self.retimed = 0
        self.failed = False
        if models.tf_depth(s['tf']) >= 3:
            ctx.probe('depth-3')
        if s['pre']:
            tf = attempt(build, s['tf'], s['pretimes'], self.arrays)
            if not isinstance(tf, Raised):
                ctx.probe('pre-timed')
                self.tf = tf
                self.times = np.array(s['pretimes'])
                if isinstance(self.twin(), Raised):
                    self.times = None
                    self.tf = build(s['tf'], None, self.arrays)
                return
        self.tf = build(s['tf'], None, self.arrays)

    def twin(self):
        return twin(self.s['tf'], self.times)

    def want(self, f, arg=None):
        """f of a newly built transfer function"""
        return self.oracle(wanted, self.s['tf'], self.times, f,
                           None if arg is None else arg.copy())

    def run(self):
        for i, op in enumerate(self.s['ops']):
            self.ctx.ev('op', i, op['o'])
            getattr(self, 'do_' + op['o'].replace('-', '_'))(op)
            self.history.append(op['o'])
            for out, copied, what in self.kept:
                self.ctx.check(models.diff(out, copied) is None, 'output-changed-later',
                               lambda: 'the result of an earlier %s' % what)

    # ------------------------------------------------------------- times
    def do_times(self, op):
        t = np.array(op['t'], float)
        form = op['form']
        base = None
        if form == 'ints':
            t = np.ceil(t)
            given = t.astype(int)
        elif form == 'list':
            given = list(t)
        elif form == 'column':
            given = t[:, None].copy()
        elif form == 'strided':
            base = np.zeros(2 * t.size + 1)
            base[:2 * t.size:2] = t
            given = base[:2 * t.size:2]
        elif form in ('absolute', 'abslist'):
            given = np.concatenate([[.5], .5 + np.cumsum(t)])
            t = np.diff(given)
            given = list(given) if form == 'abslist' else given
        else:
            given = t.copy()
            if form == 'ro':
                given.flags.writeable = False
        before = copy.deepcopy(given)
        old = self.times
        f = self.tf.set_absolute_times if form in ('absolute', 'abslist') else \
            self.tf.set_times
        FP.arm(op.get('f'))
        got = attempt(f, given)
        fired = FP.disarm()
        self.ctx.check(models.diff(given, before) is None if not isinstance(given, list)
                       else given == before, 'times-of-caller-changed', '')
        if fired is not None:
            self.outcome(got, fired, 'set_times')
            self.ctx.probe('failed-times')
            self.usable = False
            self.failed = True
            return
        self.times = t
        w = self.twin()
        if isinstance(w, Raised) != isinstance(got, Raised):
            raise Violation('set-times-' + ('succeeds' if isinstance(w, Raised) else 'fails'),
                            'after %r: %r, newly built: %r' % (
                                self.history, got.e if isinstance(got, Raised) else 'no error',
                                w.e if isinstance(w, Raised) else 'no error'))
        if isinstance(got, Raised):
            # both refuse these times
            self.usable = False
            self.times = old
            return
        self.usable = True
        if old is not None:
            self.retimed += 1
            self.ctx.probe('re-timed')
            self.ctx.probe('fewer-steps' if t.size < old.size else 'more-steps'
                           if t.size > old.size else 'same-times'
                           if np.array_equal(t, old) else 'same-number')
        for k, p in (('list', 'list'), ('abslist', 'list'), ('column', 'column'),
                     ('strided', 'strided'), ('ints', 'integers'), ('absolute', 'absolute')):
            if form == k:
                self.ctx.probe(p)
        if op['scribble'] and form != 'ro':
            self.ctx.probe('scribbled')
            if isinstance(given, list):
                given[:] = [9.] * len(given)
            else:
                given[...] = 9
            if base is not None:
                base[:] = 9.
        self.info(w)

    def outcome(self, got, fired, what):
        self.ctx.check(isinstance(got, Raised) and reported(fired, got.e),
                       'failure-not-reported', lambda: '%s: %r injected, %r' % (
                           what, fired, got.e if isinstance(got, Raised) else 'no error'))

    def do_sibling(self, op):
        FP.disarm()
        other = attempt(build, op['tf'])
        if isinstance(other, Raised):
            return
        attempt(other.set_times, np.array(op['t'], float))
        y = models.rs(op['s']).uniform(-1, 1, (len(op['t']), self.s['n']))
        got = [attempt(f, other, arg) for f, arg in (
            (q_call, y), (q_matrix, None), (q_look, None))]
        if not isinstance(got[0], Raised):
            got.append(attempt(q_grad, other, np.ones((got[0].shape[0], 1, self.s['n']))))
        for g in got:
            if op['scaled'] and isinstance(g, np.ndarray) and g.flags.writeable:
                g *= 2.
        self.ctx.probe('sibling')
        if self.usable:
            self.info(self.twin())

    def do_refuse_times(self, op):
        n = 3 if self.times is None else self.times.size
        how = op['how']
        bad = {'tuple': tuple([.5] * n), 'str': 'abc', 'none': None,
               '2d': np.full((2, 2), .5), 'unsorted': np.array([1., .5, 2.])}[how]
        f = self.tf.set_absolute_times if how == 'unsorted' else self.tf.set_times
        got = attempt(f, bad)
        self.ctx.check(isinstance(got, Raised), 'bad-times-accepted', how)
        self.ctx.probe('refused-times')
        if self.usable:
            self.info(self.twin())

    # ----------------------------------------------------------- queries
    def do_info(self, op):
        if self.usable:
            self.info(self.twin())

    def info(self, w):
        if isinstance(w, Raised):
            return
        self.answer('times', attempt(q_look, self.tf), self.want(q_look))
        self.answer('padding', attempt(q_padding, self.tf), self.want(q_padding))

    def answer(self, what, got, want):
        self.ctx.state(sorted(set(nodes(self.s['tf']))), what,
                       None if self.times is None else self.times.size, self.retimed > 0,
                       self.history[-1:], self.failed)
        if self.retimed or self.failed:
            self.ctx.nontrivial = True
        if self.failed and not isinstance(got, Raised):
            self.ctx.probe('after-failure')
        if isinstance(got, Raised) or isinstance(want, Raised):
            self.ctx.check(isinstance(got, Raised) == isinstance(want, Raised),
                           what + (':raises' if isinstance(got, Raised) else ':no-error'),
                           lambda: 'after %r: %r, newly built: %r' % (
                               self.history, getattr(got, 'e', got),
                               getattr(want, 'e', want)))
            return False
        if isinstance(got, dict):
            for k in got:
                d = models.diff(got[k], want[k])
                self.ctx.check(d is None, what + ':' + k, lambda: '%s after %r: %r, newly '
                               'built %r' % (d, self.history, got[k], want[k]))
            return True
        d = models.diff(got, want)
        self.ctx.check(d is None, what, lambda: '%s after %r (times %r)' % (
            d, self.history, self.times))
        return True

    def query(self, op, what, f, arg):
        """f(tf, arg) of the long-lived and of a newly built transfer function."""
        if not self.usable:
            return
        if self.times is None:
            self.ctx.probe('used-before-times')
        w = self.twin()
        if isinstance(w, Raised):
            return
        want = self.want(f, arg)
        given = None if arg is None else arg.copy()
        if op.get('f'):
            FP.arm(op['f'])
            got = attempt(f, self.tf, given)
            fired = FP.disarm()
            self.untouched(given, arg)
            if fired is not None:
                self.outcome(got, fired, what)
                self.ctx.probe({'call': 'failed-call', 'grad': 'failed-gradient',
                                'matrix': 'failed-matrix'}[op['o']])
                self.failed = True
            else:
                self.answer(what, got, want)
        got = attempt(f, self.tf, given)
        self.untouched(given, arg)
        if not self.answer(what, got, want):
            return
        alias = given is not None and np.shares_memory(got, given)
        if op['scribble']:
            self.ctx.probe('scribbled')
            if given is not None:
                given[...] = 7.
            if not alias:
                try:
                    got[...] = 8.
                except ValueError:
                    pass
        elif not alias:
            self.kept.append((got, got.copy(), what))
            self.ctx.probe('kept-output')
        # and again, after the caller has used its arrays
        if op['scribble']:
            got = attempt(f, self.tf, None if arg is None else arg.copy())
            self.answer(what + ':again', got, want)

    def untouched(self, given, arg):
        self.ctx.check(given is None or np.array_equal(given, arg), 'input-changed', '')

    def do_call(self, op):
        n = 3 if self.times is None else self.times.size
        y = np.round(models.rs(op['s']).uniform(-2, 2, (n, self.s['n'])), 3)
        self.query(op, 'pulse', q_call, y)

    def do_grad(self, op):
        w = self.twin()
        if isinstance(w, Raised):
            return
        r = models.rs(op['s'])
        d = np.round(r.uniform(-2, 2, (w.num_x or 3, r.randint(1, 3), self.s['n'])), 3)
        self.query(op, 'gradient', q_grad, d)

    def do_matrix(self, op):
        if not hasattr(type(self.tf), 'transfer_matrix'):
            return
        self.ctx.probe('matrix')
        self.query(op, 'transfer-matrix', q_matrix, None)

    def do_refuse_pulse(self, op):
        if not self.usable or self.times is None:
            return
        n, c = self.times.size, self.s['n']
        how = op['how']
        r = models.rs(op['s'])
        y = {'steps': r.uniform(-1, 1, (n + 1, c)), 'ctrls': r.uniform(-1, 1, (n, c + 1)),
             '1d': r.uniform(-1, 1, n), '3d': r.uniform(-1, 1, (n, c, 2)),
             'ints': np.ones((n, c), int), 'grad': r.uniform(-1, 1, (99, 2, c))}[how]
        w = self.twin()
        f = q_grad if how == 'grad' else q_call
        want = self.want(f, y)
        got = attempt(f, self.tf, y)
        if self.answer('refused', got, want) is False:
            self.ctx.probe('refused-pulse')

    def do_overwrite(self, op):
        """The caller uses the arrays it gave to the constructors."""
        if self.arrays:
            self.ctx.probe('overwritten')
        for a in self.arrays:
            a[...] = 5.

    # ------------------------------------------------------------ copies
    def do_copy(self, op):
        """Goes on with a copy; the original is then used differently."""
        old, self.tf = self.tf, copy.deepcopy(self.tf)
        self.ctx.probe('copied')
        attempt(old.set_times, np.array([.7, .9, .2]))
        attempt(old, np.ones((3, self.s['n'])))

    def do_pickle(self, op):
        if not self.usable:
            return
        old, self.tf = self.tf, pickle.loads(pickle.dumps(self.tf))
        self.ctx.probe('pickled')
        attempt(old.set_times, np.array([.7, .9, .2]))


def execute(s, ctx):
    FP.reset(ctx)
    try:
        History(s, ctx).run()
    finally:
        FP.reset()


def simplify(s):
    if s['pre']:
        yield dict(s, pre=False)
    t = s['tf']
    for k in ('a', 'c'):
        if isinstance(t.get(k), dict) and t['t'] in ('cat', 'mcat'):
            yield dict(s, tf=t[k])
        if isinstance(t.get(k), dict) and t[k]['t'] in ('cat', 'mcat'):
            for j in ('a', 'c'):
                yield dict(s, tf=dict(t, **{k: t[k][j]}))
    for i, op in enumerate(s['ops']):
        def put(**k):
            return dict(s, ops=s['ops'][:i] + [dict(op, **k)] + s['ops'][i + 1:])
        if op.get('f'):
            yield put(f=None)
        if op.get('scribble'):
            yield put(scribble=False)
        if op.get('form') not in (None, 'array'):
            yield put(form='array')
        if len(op.get('t', [])) > 1:
            yield put(t=op['t'][:-1])
