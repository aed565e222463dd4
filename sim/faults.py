"""Named fault points inside the system, and the exceptions injected there."""
import numpy as np


class UserBug(Exception):
    pass


class Cancelled(BaseException):
    pass


KINDS = {
    'ValueError': ValueError, 'RuntimeError': RuntimeError,
    'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt,
    'FloatingPointError': FloatingPointError, 'LinAlgError': np.linalg.LinAlgError,
    'OSError': OSError, 'UserBug': UserBug, 'Cancelled': Cancelled,
    'ZeroDivisionError': ZeroDivisionError, 'KeyError': KeyError,
    'IndexError': IndexError, 'ArithmeticError': ArithmeticError,
    'TimeoutError': TimeoutError,
    'AttributeError': AttributeError, 'AssertionError': AssertionError,
    'NotImplementedError': NotImplementedError,
}


class FaultPoints:
    """One fault at a time can be armed: the nth passage of a point raises."""

    def __init__(self):
        self.on_hit = None      # called at every passage (a point to switch)
        self.reset()

    def reset(self, ctx=None):
        self.ctx = ctx
        self.armed = None
        self.fired = None
        self.passages = {}

    def arm(self, fault):
        """fault: {'point':, 'nth':, 'exc':} or None"""
        self.armed = dict(fault) if fault else None
        self.fired = None
        self.passages = {}

    def disarm(self):
        f, self.armed, self.fired = self.fired, None, None
        return f

    def save(self):
        return self.ctx, self.armed, self.fired, self.passages, self.on_hit

    def restore(self, state):
        self.ctx, self.armed, self.fired, self.passages, self.on_hit = state

    def hit(self, point):
        if self.on_hit is not None:
            self.on_hit(point)
        if self.armed is None or self.ctx is None:
            return
        if self.armed['point'] not in (point, '*'):
            return
        n = self.passages[point] = self.passages.get(point, 0) + 1
        if self.armed['point'] == '*':
            n = sum(self.passages.values())
        if n == self.armed['nth']:
            e = KINDS[self.armed['exc']]('injected at %s #%d' % (point, n))
            self.armed = None
            self.fired = e
            self.ctx.fault(point)
            self.ctx.probe('raised:' + type(e).__name__)
            raise e


FP = FaultPoints()


def reported(fired, caught):
    """Was the injected failure reported to the caller?"""
    seen = set()
    todo = [caught]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        if e is fired:
            return True
        todo += [e.__cause__, e.__context__]
    return isinstance(caught, type(fired))


def install_numeric_points():
    """Wrap the numerical routines (fault points 'exp', 'dexp', 'diag')."""
    import qopt.matrix as m
    from filter_functions import numeric

    def wrap(owner, name, point):
        real = getattr(owner, name)

        def fn(*a, **k):
            FP.hit(point)
            return real(*a, **k)
        fn.__name__ = name
        setattr(owner, name, fn)
    wrap(m.DenseOperator, 'exp', 'exp')
    wrap(m.DenseOperator, 'dexp', 'dexp')
    wrap(m.DenseOperator, 'kron', 'kron')
    wrap(m.DenseOperator, '__add__', 'add') if '__add__' in vars(m.DenseOperator) else None
    wrap(m.DenseOperator, '__mul__', 'mul')
    wrap(m.DenseOperator, '__rmul__', 'rmul')
    wrap(m.DenseOperator, '__iadd__', 'iadd')
    wrap(numeric, 'diagonalize', 'diag')
    wrap(numeric, 'infidelity', 'ff-infidelity')
