"""Seams: every source of nondeterminism of qopt goes through a dispatcher.

`install()` must be called before qopt (and anything qopt imports names from)
is imported.  The dispatchers are inert (they call the real functions) unless
a simulated world is active, i.e. unless `WORLD` below is set.
"""
import os
import sys
import time
import timeit

REAL = {}


class World:
    """The part of the simulated environment that the seams consult."""

    def __init__(self):
        self.clock = None       # clock.Clock
        self.driver = None      # callable(kind, real, args, kwargs)
        self.pools = None       # pool.PoolWorld
        self.random01 = None    # callable() -> float in [0, 1)


WORLD = World()


class Clock:
    """A virtual clock: monotonic time only moves when somebody advances it;
    the wall clock can in addition be stepped in either direction."""

    def __init__(self, mono=0., wall=1.6e9, perf=0.):
        self.mono = float(mono)
        self.wall = float(wall)
        self.perf = float(perf)
        self.cpu = 0.
        self.total = 0.
        self.readings = 0

    def advance(self, dt):
        if dt < 0:
            raise ValueError('time does not run backwards')
        self.mono += dt
        self.wall += dt
        self.perf += dt
        self.total += dt

    def step_wall(self, dt):
        self.wall += dt


def _clock_fn(name, getter, scale=None):
    real = getattr(time, name)
    REAL['time.' + name] = real

    def fn():
        c = WORLD.clock
        if c is None:
            return real()
        c.readings += 1
        v = getter(c)
        return v if scale is None else int(round(v * scale))
    fn.__name__ = name
    return fn


def _sleep(seconds):
    c = WORLD.clock
    if c is None:
        return REAL['time.sleep'](seconds)
    c.advance(float(seconds))


def install():
    if 'qopt' in sys.modules or REAL:
        raise RuntimeError('seams must be installed exactly once, before qopt')
    import random
    for name, get, scale in [
            ('time', lambda c: c.wall, None),
            ('time_ns', lambda c: c.wall, 1e9),
            ('monotonic', lambda c: c.mono, None),
            ('monotonic_ns', lambda c: c.mono, 1e9),
            ('perf_counter', lambda c: c.perf, None),
            ('perf_counter_ns', lambda c: c.perf, 1e9),
            ('process_time', lambda c: c.cpu, None),
            ('process_time_ns', lambda c: c.cpu, 1e9)]:
        setattr(time, name, _clock_fn(name, get, scale))
    REAL['time.sleep'] = time.sleep
    time.sleep = _sleep
    timeit.default_timer = time.perf_counter

    import scipy.optimize

    def dispatch(kind):
        real = getattr(scipy.optimize, kind)
        REAL['scipy.optimize.' + kind] = real

        def fn(*args, **kwargs):
            d = WORLD.driver
            if d is None:
                return real(*args, **kwargs)
            return d(kind, real, args, kwargs)
        fn.__name__ = kind
        return fn
    for kind in ('minimize', 'least_squares'):
        setattr(scipy.optimize, kind, dispatch(kind))

    real_random = random.random
    REAL['random.random'] = real_random

    def rnd():
        r = WORLD.random01
        return real_random() if r is None else r()
    random.random = rnd

    from . import pool
    pool.install()


def import_sut():
    """Import qopt from the repository's working tree (never a copy left in
    site-packages)."""
    repo = os.environ.get('QOPT_REPO', '/repo')
    sys.path.insert(0, repo)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import qopt
        import qopt.matrix, qopt.noise, qopt.simulator, qopt.optimize
        import qopt.solver_algorithms, qopt.cost_functions, qopt.parallel
        import qopt.transfer_function, qopt.amplitude_functions
        import qopt.data_container, qopt.analyser, qopt.optimization_data
        import qopt.performance_statistics
    where = os.path.realpath(qopt.__file__)
    if not where.startswith(os.path.realpath(repo) + os.sep):
        raise RuntimeError('qopt was imported from ' + where)
    return qopt
