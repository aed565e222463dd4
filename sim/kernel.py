"""Context of one simulated run, and the pseudo random source of scenarios."""
import collections
import hashlib
import json
import os
import pickle
import random
import select
import signal
import traceback

from . import seams


def forked(fn, timeout=120.):
    """fn() in a forked child; returns its JSON-able result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            out = json.dumps(fn()).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(out)
            code = 0
        except BaseException:
            try:
                traceback.print_exc()
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    deadline = seams.REAL['time.monotonic']() + timeout
    timed_out = False
    while True:
        left = deadline - seams.REAL['time.monotonic']()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        buf.append(chunk)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if timed_out:
        return {'violation': None, 'error': 'run exceeded %gs of real time' % timeout}
    try:
        return json.loads(b''.join(buf))
    except ValueError:
        return {'violation': None, 'error': 'run died without a result'}


class Pristine:
    """Answers of a process in which nothing was built or asked before.

    A zygote is forked when this is made (at the start of a run); every request
    is served by another fork of it.  What the code under test keeps in modules
    or classes in the course of a run cannot reach these answers."""

    def __init__(self):
        r1, self._w = os.pipe()
        self._r, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self._w)
                os.close(self._r)
                while True:
                    request = _receive(r1)
                    if request is None:
                        break
                    pid = os.fork()
                    if pid == 0:
                        try:
                            fn, args = pickle.loads(request)
                            try:
                                out = (True, fn(*args))
                            except Exception as e:
                                out = (False, (sut_frame(e), type(e).__name__,
                                               short_tb(e)))
                            _send(w2, pickle.dumps(out))
                        finally:
                            os._exit(0)
                    os.waitpid(pid, 0)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)

    def __call__(self, fn, *args):
        _send(self._w, pickle.dumps((fn, args)))
        data = _receive(self._r)
        if data is None:
            raise RuntimeError('the pristine process died')
        ok, value = pickle.loads(data)
        if not ok:
            sut, name, text = value
            if sut:
                # a request that has to be answered was not
                raise Violation('unexpected-exception:' + name,
                                'in a process without history: ' + text)
            raise RuntimeError('in the pristine process: ' + text)
        return value


def direct(fn, *args):
    return fn(*args)


def oracle_of(scenario):
    """How the reference answers of a run are computed."""
    return Pristine() if scenario.get('iso') else direct


def _send(fd, data):
    data = len(data).to_bytes(8, 'big') + data
    while data:
        data = data[os.write(fd, data):]


def _receive(fd):
    buf = b''
    want = 8
    size = None
    while len(buf) < want:
        chunk = os.read(fd, min(want - len(buf), 1 << 20))
        if not chunk:
            return None
        buf += chunk
        if size is None and len(buf) == 8:
            size = int.from_bytes(buf, 'big')
            buf, want = b'', size
    return buf


class Violation(Exception):
    """The property does not hold.  `sig` is the class of the violation."""

    def __init__(self, sig, message=''):
        super().__init__(sig + ': ' + message)
        self.sig = sig
        self.message = message


class R(random.Random):
    """Scenario randomness: one instance per run, seeded once."""

    def chance(self, p):
        return self.random() < p

    def pick(self, *options):
        return options[self.randrange(len(options))]

    def weighted(self, *pairs):
        total = sum(w for w, _ in pairs)
        x = self.random() * total
        for w, v in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][1]

    def int(self, a, b):
        return self.randint(a, b)

    def seed32(self):
        return self.randrange(1, 2 ** 31)


def derive(*parts):
    h = hashlib.sha256(json.dumps(parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Ctx:
    MAX_EVENTS = 400000

    def __init__(self):
        self.events = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.nontrivial = False
        self.clock = None
        self.evaluations = 0     # answers compared with the oracle
        self.extra_time = 0.     # simulated time of further clocks

    # ---- the event log (never draws randomness, never reads a real clock)
    def ev(self, kind, *args):
        self.events.append((kind,) + args)
        if len(self.events) > self.MAX_EVENTS:
            raise Violation('no-progress', 'more than %d events' % self.MAX_EVENTS)

    def fault(self, kind):
        self.faults[kind] += 1
        self.events.append(('FAULT', kind))

    def probe(self, name):
        self.probes[name] += 1

    def state(self, *parts):
        self.states.add(derive(*[str(p) for p in parts]) & 0xffffffffffff)

    def check(self, cond, sig, message=''):
        self.evaluations += 1
        if not cond:
            raise Violation(sig, message() if callable(message) else message)

    def call(self, what, fn, *args, **kwargs):
        """Call the code under test where no failure is allowed."""
        try:
            return fn(*args, **kwargs)
        except Violation:
            raise
        except BaseException as e:
            raise Violation('unexpected-exception:%s:%s' % (what, type(e).__name__),
                            '%r\n%s' % (e, short_tb(e)))

    def new_clock(self, **k):
        self.clock = seams.Clock(**k)
        seams.WORLD.clock = self.clock
        return self.clock

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(repr(e).encode())
        return h.hexdigest()

    def interleaving(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(repr([x for x in e if isinstance(x, (str, int))]).encode())
        return h.hexdigest()[:16]


def short_tb(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])


def sut_frame(e):
    """Was the exception raised by the code under test, not by the harness?

    Decided by the innermost frame that belongs to either."""
    import qopt
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    there = os.path.dirname(os.path.abspath(qopt.__file__)) + os.sep
    tb = e.__traceback__
    sut = False
    while tb is not None:
        name = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if name.startswith(here):
            sut = False
        elif name.startswith(there):
            sut = True
        tb = tb.tb_next
    return sut


def reset_world():
    w = seams.WORLD
    w.clock = w.driver = w.pools = w.random01 = None
