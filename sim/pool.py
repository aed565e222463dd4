"""SimPool: worker processes simulated inside one process.

Stands in for multiprocessing.pool.Pool (and concurrent.futures'
ProcessPoolExecutor).  What crosses the process boundary is pickled and
unpickled as with real workers, every simulated worker has its own state of the
global random sources (copied from the parent when the pool is made, as fork
does), and the seeded schedule decides which piece of work runs next on which
worker and in which order pieces complete.
"""
import collections
import concurrent.futures
import multiprocessing.pool
import pickle
import random

import numpy as np

from . import seams

REAL_POOL = multiprocessing.pool.Pool
REAL_EXEC = concurrent.futures.ProcessPoolExecutor


class InjectedWorkerError(RuntimeError):
    pass


class PoolWorld:
    """Schedule and faults of all pools of one simulated run.

    schedule: list of ints, consumed cyclically to pick the next piece of work
              and the worker that runs it.
    faults:   list of dicts {kind, at}: kind in 'start' (pool cannot be
              started), 'task' (the worker fails before running piece `at`),
              'encode' (the result of piece `at` cannot be sent back),
              'interrupt' (the parent is interrupted after `at` pieces ran).
    """

    def __init__(self, ctx, schedule=(), faults=(), cpus=4):
        self.ctx = ctx
        self.schedule = list(schedule) or [0]
        self.pos = 0
        self.faults = [dict(f) for f in faults]
        self.cpus = cpus
        self.pools = []
        self.n_tasks = 0

    def choose(self, n):
        v = self.schedule[self.pos % len(self.schedule)]
        self.pos += 1
        return (v + self.pos // len(self.schedule)) % n

    def take_fault(self, kind, at):
        for f in self.faults:
            if f['kind'] == kind and f['at'] == at and not f.get('done'):
                f['done'] = True
                self.ctx.fault('pool-' + kind)
                return f
        return None

    def leaked(self):
        return [p for p in self.pools if not p.ended]


def _seed_states():
    import numpy as np
    return random.getstate(), np.random.get_state()


def _set_states(s):
    import numpy as np
    random.setstate(s[0])
    np.random.set_state(s[1])


EXC = {'MemoryError': MemoryError, 'OSError': OSError, 'ValueError': ValueError,
       'RuntimeError': InjectedWorkerError, 'ZeroDivisionError': ZeroDivisionError,
       'FloatingPointError': FloatingPointError, 'LinAlgError': np.linalg.LinAlgError,
       'KeyError': KeyError, 'TimeoutError': TimeoutError,
       'AttributeError': AttributeError}


class _Core:
    """The part shared by SimPool and SimExecutor."""

    def _init_core(self, processes, initializer, initargs):
        self.pw = seams.WORLD.pools
        f = self.pw.take_fault('start', len(self.pw.pools))
        if f:
            self.pw.ctx.ev('pool-start-fails')
            raise OSError(11, 'Resource temporarily unavailable (injected)')
        if processes is None:
            processes = self.pw.cpus
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        self.n = processes
        self.ended = False
        self.closed = False
        self.pending = []      # (job, index, func, blob)
        s = _seed_states()
        self.states = [s] * processes
        self.initializer = (initializer, tuple(initargs or ()))
        self.started = [False] * processes
        self.pw.pools.append(self)
        self.pw.ctx.ev('pool-start', processes)

    def _submit(self, job, index, func, blob):
        self.pending.append((job, index, func, blob))

    def _step(self):
        """Run one piece of work; False if there is none."""
        if not self.pending:
            return False
        pw = self.pw
        if pw.take_fault('interrupt', pw.n_tasks):
            pw.ctx.ev('parent-interrupted')
            raise KeyboardInterrupt('injected')
        k = pw.choose(len(self.pending))
        w = pw.choose(self.n)
        job, index, func, blob = self.pending.pop(k)
        t = pw.n_tasks
        pw.n_tasks += 1
        pw.ctx.ev('task', t, index, w)
        parent = _seed_states()
        _set_states(self.states[w])
        try:
            try:
                if not self.started[w]:
                    self.started[w] = True
                    if self.initializer[0] is not None:
                        self.initializer[0](*self.initializer[1])
                f = pw.take_fault('task', t)
                if f:
                    raise EXC[f.get('exc', 'RuntimeError')]('injected worker failure')
                func_, payload = pickle.loads(blob)
                value = func(func_, payload)
                if pw.take_fault('encode', t):
                    raise multiprocessing.pool.MaybeEncodingError(
                        'injected', 'result of piece %d' % t)
                out = (True, pickle.loads(pickle.dumps(value)))
            except Exception as e:      # as in multiprocessing.pool.worker
                out = (False, e)
        finally:
            self.states[w] = _seed_states()
            _set_states(parent)
        job._done(index, out)
        return True

    def _until(self, cond):
        while not cond():
            if self.ended:
                raise RuntimeError('pool terminated while work is pending')
            if not self._step():
                raise RuntimeError('no piece of work can complete (deadlock)')


def _run_map(func, payload):
    return [func(x) for x in payload]


def _run_star(func, payload):
    return [func(*x) for x in payload]


def _run_call(func, payload):
    return func(*payload[0], **payload[1])


class _Result:
    """AsyncResult of a number of chunks."""

    def __init__(self, pool, n, callback=None, error_callback=None, single=False):
        self.pool, self.n, self.left, self.single = pool, n, n, single
        self.values = [None] * n
        self.error = None
        self.cb, self.ecb = callback, error_callback

    def _done(self, index, out):
        ok, v = out
        self.left -= 1
        if ok:
            self.values[index] = v
        elif self.error is None:
            self.error = v
        if self.left == 0:
            if self.error is None and self.cb:
                self.cb(self._value())
            if self.error is not None and self.ecb:
                self.ecb(self.error)

    def _value(self):
        if self.single:
            return self.values[0]
        return [x for chunk in self.values for x in chunk]

    def ready(self):
        return self.left == 0

    def successful(self):
        if not self.ready():
            raise ValueError('{0!r} not ready'.format(self))
        return self.error is None

    def wait(self, timeout=None):
        self.pool._until(self.ready)

    def get(self, timeout=None):
        self.wait()
        if self.error is not None:
            raise self.error
        return self._value()


class _Iter:
    def __init__(self, pool, n, ordered):
        self.pool, self.n, self.ordered = pool, n, ordered
        self.done = {}
        self.order = collections.deque()
        self.nxt = 0

    def _done(self, index, out):
        self.done[index] = out
        self.order.append(index)

    def __iter__(self):
        return self

    def __next__(self):
        if self.nxt >= self.n:
            raise StopIteration
        if self.ordered:
            i = self.nxt
            self.pool._until(lambda: i in self.done)
        else:
            # more than one result may have arrived before the caller looks
            self.pool._until(lambda: self.order)
            i = self.order.popleft()
        self.nxt += 1
        ok, v = self.done[i]
        if not ok:
            raise v
        return v
    next = __next__


class SimPool(_Core):
    def __new__(cls, *a, **k):
        if seams.WORLD.pools is None:
            return REAL_POOL(*a, **k)
        return object.__new__(cls)

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        self._init_core(processes, initializer, initargs)

    def _check(self):
        if self.closed or self.ended:
            raise ValueError('Pool not running')

    def _chunks(self, items, chunksize):
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize or 1)
        return [items[i:i + chunksize] for i in range(0, len(items), chunksize)]

    def _mapper(self, runner, func, iterable, chunksize, cb=None, ecb=None):
        self._check()
        chunks = self._chunks(iterable, chunksize)
        blobs = [pickle.dumps((func, c)) for c in chunks]
        job = _Result(self, len(chunks), cb, ecb)
        for i, b in enumerate(blobs):
            self._submit(job, i, runner, b)
        if not chunks:
            job.left = 0
        return job

    def map(self, func, iterable, chunksize=None):
        return self._mapper(_run_map, func, iterable, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        return self._mapper(_run_map, func, iterable, chunksize, callback,
                            error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self._mapper(_run_star, func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return self._mapper(_run_star, func, iterable, chunksize, callback,
                            error_callback)

    def _imap(self, func, iterable, ordered):
        self._check()
        items = list(iterable)
        it = _Iter(self, len(items), ordered)
        for i, x in enumerate(items):
            self._submit(it, i, _run_call, pickle.dumps((func, ((x,), {}))))
        return it

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, False)

    def apply_async(self, func, args=(), kwds={}, callback=None,
                    error_callback=None):
        self._check()
        job = _Result(self, 1, callback, error_callback, single=True)
        self._submit(job, 0, _run_call, pickle.dumps((func, (args, kwds))))
        return job

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = self.ended = True
        self.pending = []

    def join(self):
        if not self.closed:
            raise ValueError('Pool is still running')
        while not self.ended and self._step():
            pass
        self.ended = True

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *exc):
        self.terminate()


class SimFuture(concurrent.futures.Future):
    def __init__(self, ex):
        super().__init__()
        self._ex = ex

    def _done(self, index, out):
        ok, v = out
        if ok:
            self.set_result(v)
        else:
            self.set_exception(v)

    def result(self, timeout=None):
        self._ex._until(self.done)
        return super().result(0)

    def exception(self, timeout=None):
        self._ex._until(self.done)
        return super().exception(0)


class SimExecutor(_Core):
    def __new__(cls, *a, **k):
        if seams.WORLD.pools is None:
            return REAL_EXEC(*a, **k)
        return object.__new__(cls)

    def __init__(self, max_workers=None, mp_context=None, initializer=None,
                 initargs=(), max_tasks_per_child=None):
        self._init_core(max_workers, initializer, initargs)

    def submit(self, fn, /, *args, **kwargs):
        if self.closed or self.ended:
            raise RuntimeError('cannot schedule new futures after shutdown')
        f = SimFuture(self)
        self._submit(f, 0, _run_call, pickle.dumps((fn, (args, kwargs))))
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            self.pending = []
        while self._step():
            pass
        self.ended = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.shutdown()


def _as_completed(fs, timeout=None):
    fs = list(fs)
    sim = [f for f in fs if isinstance(f, SimFuture)]
    if not sim:
        yield from REAL_AS_COMPLETED(fs, timeout)
        return
    seen = set()
    while len(seen) < len(fs):
        done = [f for f in fs if f.done() and id(f) not in seen]
        if not done:
            ex = next(f._ex for f in fs if not f.done())
            if not ex._step():
                raise RuntimeError('no future can complete (deadlock)')
            continue
        for f in done:
            seen.add(id(f))
            yield f


REAL_AS_COMPLETED = concurrent.futures.as_completed


def install():
    multiprocessing.pool.Pool = SimPool
    concurrent.futures.process.ProcessPoolExecutor = SimExecutor
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    concurrent.futures.as_completed = _as_completed
