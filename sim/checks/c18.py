"""C18: operators keep the values that the operations on them define."""
import copy
import pickle

import numpy as np
import scipy.linalg
import scipy.sparse

from .. import faults, models
from ..faults import FP, reported
from ..history import gen_fault
from ..models import rs

ID = 'C18'
RUNS = {'quick': 14000, 'thorough': 300000}
SHRINK_LISTS = ('ops',)
RULE = ('a run is a seeded history of operations, in place and out of place, also malformed '
        'or failing ones and writes into single elements, on a population of operators; '
        'after every step all operators and all arrays of the user are compared with an '
        'independent model of numpy arrays; non-trivial: at least five operations of three '
        'kinds took effect')
STATE_MEASURE = 'distinct (operation, shapes, form of the operand, preceding operations)'
REAL = ['qopt.matrix operators and conversions']
STUB = ['the user']
NAMES = ('add', 'sub', 'mul', 'rmul', 'div', 'iadd', 'isub', 'imul', 'idiv', 'dag', 'conj',
         'transpose', 'ptrace', 'kron', 'truncate', 'identity', 'copy', 'set', 'look',
         'super', 'vector', 'square', 'closest', 'new', 'bad', 'pauli')
PROBES = tuple(NAMES) + ('in-place', 'refused', 'poked', 'self-operand', 'after-failure')
ASSUMPTIONS = ['operators built from one array of complex numbers share it with the caller '
               '(not judged)', 'values to 1e-9']
LIMIT = 16


def setup():
    faults.install_numeric_points()


def generate(R, tier):
    d = R.pick(1, 2, 2, 3, 4, 4, 6)
    shapes = [[d, d], [d, d], [d, 1], [R.int(1, 4)] * 2, [1, d]]
    s = {'regs': [{'sh': R.pick(*shapes), 's': R.seed32(), 'f': form(R)} for _ in range(4)],
         'ops': []}
    weights = {n: R.pick(.3, 1, 1, 2) for n in NAMES}
    rate = R.pick(0, 0, .15)
    for _ in range(R.int(4, 14 if tier == 'quick' else 40)):
        o = R.weighted(*[(w, n) for n, w in weights.items()])
        op = {'o': o, 'a': R.int(0, 3), 'b': R.int(0, 3), 'to': R.int(0, 3), 's': R.seed32(),
              'w': R.pick('op', 'op', 'array', 'scalar'), 'k': R.pick(*SCALARS),
              'ip': R.chance(.4), 'sh': R.pick(*shapes), 'f': form(R)}
        if R.chance(.25):
            op['poke'] = R.seed32()
        if R.chance(rate):
            op['fault'] = dict(gen_fault(R), point=R.pick('mul', 'kron'))
        s['ops'].append(op)
    return s


SCALARS = ('int', 'float', 'complex', 'int8', 'int16', 'int32', 'int64', 'float16',
           'float32', 'float64', 'complex64', 'complex128')


def form(R):
    return R.pick('complex', 'complex', 'real', 'int', 'sparse', 'fortran', 'view')


def scalar(kind, seed):
    r = rs(seed)
    v = [2, -1, 3, 1][seed % 4]
    if 'int' not in kind:
        v = v + .25 * (seed % 3)
    if 'complex' in kind:
        v = v + .5j * r.randint(1, 4)
    return {'int': int, 'float': float, 'complex': complex}.get(kind, None)(v) \
        if kind in ('int', 'float', 'complex') else getattr(np, kind)(v)


def values(shape, seed, f='complex'):
    r = rs(seed)
    if f == 'int':
        return r.randint(-2, 3, shape)
    x = np.round(r.uniform(-1, 1, shape), 2)
    if f in ('complex', 'fortran', 'view'):
        x = x + 1j * np.round(r.uniform(-1, 1, shape), 2)
    return x


class Refused(Exception):
    pass


class World:
    def __init__(self, s, ctx):
        self.s, self.ctx = s, ctx
        FP.reset(ctx)
        self.M = models.q().matrix
        self.D = self.M.DenseOperator
        self.reg, self.ref = [None] * 4, [None] * 4
        self.given = []          # arrays of the user, and their values
        self.done = []
        self.failed = False
        for i, g in enumerate(s['regs']):
            self.new(i, g)

    def new(self, i, g):
        x = values(g['sh'], g['s'], g['f'])
        self.ref[i] = np.array(x, dtype=complex)
        if g['f'] == 'fortran':
            x = np.asfortranarray(x)
        elif g['f'] == 'view':
            x = np.array(x).T.copy().T
        if g['f'] == 'sparse':
            x = scipy.sparse.csr_matrix(x)
        elif g['f'] in ('real', 'int'):
            self.user(x)
        self.reg[i] = self.D(x)

    def user(self, x):
        self.given.append((x, x.copy()))
        del self.given[:-6]
        return x

    # ---- the steps
    def run(self):
        for n, op in enumerate(self.s['ops']):
            self.ctx.ev(op['o'], n, [r.shape for r in self.ref], op['ip'], op['w'])
            self.step(op)
            self.compare(op)

    def step(self, op):
        ctx, o = self.ctx, op['o']
        FP.arm(op.get('fault'))
        before = self.reg[op['a']]
        same = op['a'] == op['b'] and op['w'] == 'op'
        try:
            out = getattr(self, 'do_' + o)(op)
        except Refused:
            FP.disarm()
            return
        except BaseException as e:
            fired = FP.disarm()
            if fired is None or not reported(fired, e):
                raise
            self.failed = True
            ctx.ev('failed', type(e).__name__)
            return
        FP.disarm()
        ctx.probe(o)
        self.done.append(o)
        if same and o in ('add', 'sub', 'mul', 'iadd', 'isub', 'imul', 'kron'):
            ctx.probe('self-operand')
        if self.failed:
            ctx.probe('after-failure')
        ctx.state(o, op['w'], op['f'] if o == 'new' else '', op['ip'], self.ref[op['a']].shape,
                  self.ref[op['b']].shape, self.done[-3:-1])
        if out is None:
            return
        got, want, place = out
        want = np.array(want, dtype=complex)
        ctx.check(type(got) is self.D, 'type', lambda: '%s gives %s' % (o, type(got)))
        if place:
            ctx.probe('in-place')
            ctx.check(got is before, 'not-in-place', o)
            i = op['a']
        else:
            i = op['to']
        self.reg[i], self.ref[i] = got, want
        if max(want.shape) > LIMIT or np.max(np.abs(want), initial=0) > 1e4:
            self.check_one(i, op)
            self.new(i, {'sh': op['sh'], 's': op['s'], 'f': 'complex'})
        elif op.get('poke'):
            self.poke(i, op['poke'])

    def poke(self, i, seed):
        """Overwrite one element; nothing else may change with it."""
        r = rs(seed)
        k = tuple(int(r.randint(n)) for n in self.ref[i].shape)
        v = complex(np.round(r.uniform(-1, 1), 2), .5)
        self.reg[i][k] = v
        self.ref[i][k] = v
        self.ctx.probe('poked')

    def check_one(self, i, op):
        got, want = self.reg[i].data, self.ref[i]
        self.ctx.check(got.shape == want.shape and got.dtype == complex, 'shape',
                       lambda: 'operator %d has %s %s instead of %s after %s' % (
                           i, got.dtype, got.shape, want.shape, self.done[-4:]))
        scale = max(1., np.max(np.abs(want)))
        err = np.max(np.abs(got - want)) / scale
        self.ctx.check(err < 1e-9, 'wrong-value', lambda: 'operator %d deviates by %.3g after '
                       '%s (%s)' % (i, err, self.done[-4:], op))

    def compare(self, op):
        for i in range(4):
            self.check_one(i, op)
        for x, was in self.given:
            self.ctx.check(np.array_equal(x, was), 'argument-changed',
                           lambda: 'after %s' % self.done[-4:])

    # ---- operations: -> (result, its value, in place) or None
    def operand(self, op, shape=None):
        """the other operand: operator, array or number"""
        w = op['w']
        if w == 'scalar':
            v = scalar(op['k'], op['s'])
            return v, v
        if w == 'array':
            x = values(shape or self.ref[op['b']].shape, op['s'], op['f'])
            self.user(x)
            return x, np.array(x)
        return self.reg[op['b']], self.ref[op['b']].copy()

    def sum(self, op, sign, place):
        a, x = self.reg[op['a']], self.ref[op['a']]
        b, y = self.operand(op, x.shape)
        if np.ndim(y) and y.shape != x.shape:
            raise Refused
        want = x + sign * y
        if place:
            if sign > 0:
                a += b
            else:
                a -= b
            return a, want, True
        return (a + b if sign > 0 else a - b), want, False

    def do_add(self, op):
        return self.sum(op, 1, False)

    def do_sub(self, op):
        return self.sum(op, -1, False)

    def do_iadd(self, op):
        return self.sum(op, 1, True)

    def do_isub(self, op):
        return self.sum(op, -1, True)

    def do_mul(self, op):
        a, x = self.reg[op['a']], self.ref[op['a']]
        b, y = self.operand(op)
        if np.ndim(y) and y.shape[0] != x.shape[1]:
            raise Refused
        return a * b, dot(x, y), False

    def do_imul(self, op):
        a, x = self.reg[op['a']], self.ref[op['a']]
        b, y = self.operand(op)
        if np.ndim(y) and (y.shape[0] != x.shape[1] or y.shape[1] != x.shape[1]):
            raise Refused
        want = dot(x, y)
        a *= b
        return a, want, True

    def do_rmul(self, op):
        a, x = self.reg[op['a']], self.ref[op['a']]
        if op['w'] == 'op':
            raise Refused
        b, y = self.operand(op)
        if np.ndim(y) and y.shape[1] != x.shape[0]:
            raise Refused
        return b * a, dot(y, x), False

    def divisor(self, op):
        v = scalar(op['k'], op['s'])
        if op['w'] == 'array':
            x = values(self.ref[op['a']].shape, op['s'], 'real') + 3.
            return self.user(x), x.copy()
        return v, v

    def do_div(self, op):
        b, y = self.divisor(op)
        return self.reg[op['a']] / b, self.ref[op['a']] / y, False

    def do_idiv(self, op):
        a = self.reg[op['a']]
        b, y = self.divisor(op)
        want = self.ref[op['a']] / y
        a /= b
        return a, want, True

    def turn(self, op, name, f):
        a, want = self.reg[op['a']], f(self.ref[op['a']])
        if op['ip']:
            return getattr(a, name)(do_copy=False), want, True
        return getattr(a, name)(), want, False

    def do_dag(self, op):
        return self.turn(op, 'dag', lambda x: x.conj().T)

    def do_conj(self, op):
        return self.turn(op, 'conj' if op['s'] % 2 else 'conjugate', lambda x: x.conj())

    def do_transpose(self, op):
        return self.turn(op, 'transpose', lambda x: x.T)

    def do_ptrace(self, op):
        a, x = self.reg[op['a']], self.ref[op['a']]
        if x.shape == (1, 1) or x.shape[1] not in (1, x.shape[0]):
            raise Refused           # (a ket or an operator of dimension one?)
        options = {2: [[2], [1, 2], [2, 1]], 3: [[3], [3, 1]], 4: [[2, 2], [4], [2, 1, 2]],
                   6: [[2, 3], [3, 2], [1, 6]], 8: [[2, 2, 2], [2, 4], [4, 2]],
                   12: [[2, 3, 2], [3, 4]], 16: [[2, 2, 2, 2], [4, 4], [2, 4, 2]],
                   9: [[3, 3]]}.get(x.shape[0], [[x.shape[0]]])
        r = rs(op['s'])
        dims = options[r.randint(len(options))]
        n = len(dims)
        remove = [int(i) for i in r.permutation(n)[:r.randint(0, n + 1)]]
        rho = x @ x.conj().T if x.shape[1] == 1 else x
        want = partial_trace(rho, dims, remove)
        args = list(dims), list(remove)
        got = a.ptrace(args[0], args[1], do_copy=not op['ip'])
        self.ctx.check(args == (dims, remove), 'argument-changed', 'ptrace')
        return got, want, op['ip']

    def do_kron(self, op):
        a, x = self.reg[op['a']], self.ref[op['a']]
        if op['w'] == 'scalar':
            raise Refused
        b, y = self.operand(op)
        want = np.einsum('ij,kl->ikjl', x, y).reshape(x.shape[0] * y.shape[0],
                                                      x.shape[1] * y.shape[1])
        return a.kron(b), want, False

    def do_truncate(self, op):
        a, x = self.reg[op['a']], self.ref[op['a']]
        r = rs(op['s'])
        if op['s'] % 5 == 0:
            self.ctx.check(a.truncate_to_subspace(None) is a, 'reference', 'truncate')
            return None
        m = max(x.shape)
        if m > 1 and x.shape[0] != x.shape[1] and 1 not in x.shape:
            raise Refused
        idx = [int(i) for i in r.permutation(m)[:r.randint(1, m + 1)]]
        rows = idx if x.shape[0] == m else [0]
        cols = idx if x.shape[1] == m else [0]
        want = np.array([[x[i, j] for j in cols] for i in rows])
        if op['ip']:
            if x.shape[0] == x.shape[1]:
                if np.linalg.svd(want)[1][-1] < 1e-3:
                    raise Refused
                want = scipy.linalg.polar(want)[0]
            else:
                if np.linalg.norm(want) < 1e-3:
                    raise Refused
                want = want / np.linalg.norm(want)
        return a.truncate_to_subspace(list(idx), map_to_closest_unitary=op['ip']), want, False

    def do_identity(self, op):
        a, x = self.reg[op['a']], self.ref[op['a']]
        if x.shape[0] != x.shape[1]:
            raise Refused
        return a.identity_like(), np.eye(x.shape[0]), False

    def do_copy(self, op):
        a, x = self.reg[op['a']], self.ref[op['a']].copy()
        k = op['s'] % 4
        got = a.copy() if k == 0 else copy.deepcopy(a) if k == 1 else \
            pickle.loads(pickle.dumps(a, protocol=op['s'] % 5)) if k == 2 else \
            self.D(a.copy())
        return got, x, False

    def do_set(self, op):
        self.poke(op['a'], op['s'])

    def do_look(self, op):
        """everything that is no operator"""
        a, x, ctx = self.reg[op['a']], self.ref[op['a']], self.ctx

        def same(name, got, want):
            got, want = np.asarray(got), np.asarray(want)
            ctx.check(got.shape == want.shape and np.allclose(
                got, want, rtol=1e-9, atol=1e-9 * max(1., np.max(np.abs(x)))), 'wrong-answer',
                lambda: '%s: %s instead of %s' % (name, got, want))
        same('shape', a.shape, x.shape)
        f = a.flatten()
        same('flatten', f, [x[i, j] for i in range(x.shape[0]) for j in range(x.shape[1])])
        f[:] = 7.
        same('norm', a.norm(), np.sqrt(np.sum(np.abs(x) ** 2)))
        same('norm', a.norm(2), np.sqrt(np.max(np.linalg.eigvalsh(x.conj().T @ x))))
        same('norm', a.norm(1), np.max(np.sum(np.abs(x), axis=0)))
        k = tuple(int(rs(op['s']).randint(n)) for n in x.shape)
        same('element', a[k], x[k])
        if x.shape[0] == x.shape[1]:
            same('trace', a.tr(), sum(x[i, i] for i in range(len(x))))
            h = self.D(x + x.conj().T)
            w, v = h.spectral_decomposition(hermitian=True)
            same('hermitian', (v * w) @ v.conj().T, x + x.conj().T)
            w, v = a.spectral_decomposition()
            same('spectral', x @ v - v * w, 0 * x)

    def do_super(self, op):
        a, x = self.reg[op['a']], self.ref[op['a']]
        if x.shape[0] != x.shape[1] or len(x) > 4:
            raise Refused
        n = len(x)
        # columns: the images of the matrix units, stacked by columns
        want = np.zeros((n * n, n * n), complex)
        for j in range(n):
            for i in range(n):
                e = np.zeros((n, n))
                e[i, j] = 1.
                want[:, j * n + i] = (x @ e @ x.conj().T).reshape(-1, order='F')
        arr = self.M.convert_unitary_to_super_operator(self.user(x.copy()))
        self.ctx.check(np.allclose(arr, want, atol=1e-9 * max(1., np.abs(want).max())),
                       'wrong-answer', 'super operator of an array')
        return self.M.convert_unitary_to_super_operator(a), want, False

    def do_vector(self, op):
        a, x = self.reg[op['a']], self.ref[op['a']]
        if x.shape[0] != x.shape[1] or len(x) > 4:
            raise Refused
        want = np.array([[x[i, j]] for j in range(len(x)) for i in range(len(x))])
        arr = self.M.ket_vectorize_density_matrix(self.user(x.copy()))
        self.ctx.check(np.array_equal(arr, want), 'wrong-answer', 'vector of an array')
        return self.M.ket_vectorize_density_matrix(a), want, False

    def do_square(self, op):
        a, x = self.reg[op['a']], self.ref[op['a']]
        n = int(round(np.sqrt(x.shape[0])))
        if x.shape[1] != 1 or n * n != x.shape[0]:
            raise Refused
        want = np.array([[x[j * n + i, 0] for j in range(n)] for i in range(n)])
        arr = self.M.convert_ket_vectorized_density_matrix_to_square(self.user(x.copy()))
        self.ctx.check(np.array_equal(arr, want), 'wrong-answer', 'square of an array')
        return self.M.convert_ket_vectorized_density_matrix_to_square(a), want, False

    def do_closest(self, op):
        a, x = self.reg[op['a']], self.ref[op['a']]
        if x.shape[0] != x.shape[1] or np.linalg.svd(x)[1][-1] < 1e-3:
            raise Refused
        return self.M.closest_unitary(a), scipy.linalg.polar(x)[0], False

    def do_new(self, op):
        self.new(op['to'], op)

    def do_pauli(self, op):
        name, want = [('0', [[1, 0], [0, 1]]), ('x', [[0, 1], [1, 0]]),
                      ('y', [[0, -1j], [1j, 0]]), ('z', [[1, 0], [0, -1]]),
                      ('m', [[0, 0], [1, 0]]), ('p', [[0, 1], [0, 0]])][op['s'] % 6]
        return getattr(self.D, 'pauli_' + name)(), want, False

    def do_bad(self, op):
        """Malformed requests are refused and change nothing."""
        a, x, D = self.reg[op['a']], self.ref[op['a']], self.D
        n, m = x.shape
        wrong = D(values([n + 1, n + 3], op['s']))
        tries = [
            lambda: a + wrong, lambda: a.__iadd__(wrong), lambda: a.__isub__(wrong),
            lambda: a * wrong if m != n + 1 else a * 'x', lambda: a.__imul__('x'),
            lambda: a * [1, 2], lambda: a + 'x', lambda: a.__isub__(None),
            lambda: a.kron('x'), lambda: a / 'x', lambda: a.__itruediv__([2.]),
            lambda: a.ptrace([n + 1, 2], [0], do_copy=not op['ip']),
            lambda: a.truncate_to_subspace([0, max(n, m) + 3]),
            lambda: D([[1, 2], [3, 4]]), lambda: D(None),
            lambda: self.M.ket_vectorize_density_matrix(wrong),
            lambda: self.M.convert_unitary_to_super_operator('x'),
            lambda: self.M.convert_ket_vectorized_density_matrix_to_square(
                D(values([4, 2], 1))),
            lambda: wrong.identity_like(),
            lambda: a.__imul__(D(values([m, m + 1], op['s']))) if m != m + 1 and n != 1
            else a.__imul__(None),
        ]
        k = op['s'] % len(tries)
        try:
            tries[k]()
        except Exception as e:
            self.ctx.probe('refused')
            self.ctx.ev('refused', k, type(e).__name__)
            return
        self.ctx.check(False, 'not-refused', 'malformed request %d' % k)


def dot(x, y):
    if not np.ndim(y) or not np.ndim(x):
        return x * y
    return np.einsum('ij,jk->ik', x, y)


def partial_trace(rho, dims, remove):
    n = len(dims)
    keep = [i for i in range(n) if i not in remove]
    t = rho.reshape(dims + dims)
    out = np.zeros([dims[i] for i in keep] * 2, complex)
    for k in np.ndindex(*[dims[i] for i in keep] * 2):
        row, col = [0] * n, [0] * n
        for a, i in enumerate(keep):
            row[i], col[i] = k[a], k[len(keep) + a]
        for z in np.ndindex(*[dims[i] for i in remove]):
            for a, i in enumerate(remove):
                row[i] = col[i] = z[a]
            out[k] += t[tuple(row) + tuple(col)]
    d = int(np.prod([dims[i] for i in keep]))
    return out.reshape(d, d)


def execute(s, ctx):
    w = World(s, ctx)
    w.run()
    ctx.nontrivial = len(w.done) > 4 and len(set(w.done)) > 2


def simplify(s):
    for n, op in enumerate(s['ops']):
        for k in ('poke', 'fault'):
            if op.get(k):
                yield dict(s, ops=s['ops'][:n] + [{x: y for x, y in op.items() if x != k}] +
                           s['ops'][n + 1:])
    for i, g in enumerate(s['regs']):
        if g['f'] != 'complex':
            yield dict(s, regs=s['regs'][:i] + [dict(g, f='complex')] + s['regs'][i + 1:])
