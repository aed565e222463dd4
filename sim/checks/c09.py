"""C09: saving results is atomic: a crash or error never destroys saved data."""
import copy
import os
import pickle

from .. import disk as diskm
from ..faults import KINDS, UserBug
from ..kernel import Violation, short_tb

collect = data_container = None
ID = 'C09'
RUNS = {'quick': 6000, 'thorough': 200000}
SHRINK_LISTS = ('ops',)
RULE = ('a run is a seeded history of appending runs and saving a collection on a simulated '
        'disk, where each save may be hit, at a seeded operation of the disk, by a killed '
        'process, a power failure with torn data, a failing or short operation, an '
        'interrupt, or content that cannot be pickled; the destination is sampled at every '
        'instant; non-trivial: a fault hit a save over an existing file')
STATE_MEASURE = ('distinct (fault kind, disk operation hit, destination kind, existed '
                 'before, outcome) situations')
REAL = ['qopt.data_container', 'pickle', 'io buffering', 'file names, symbolic links and '
        'renames (real files in a scratch directory)']
STUB = ['the disk: failing and short operations, kills, durability after a power failure']
PROBES = ('saved', 'saved-again-after-failure', 'failed-save', 'fresh-destination',
          'existing-destination', 'symlink-destination', 'default-destination',
          'stale-temporary-file', 'several-writes', 'unpicklable', 'reloaded',
          'killed-at-open', 'killed-at-write', 'killed-at-close', 'killed-at-rename',
          'relative-destination', 'read-back', 'power-failure-after-save', 'other-collection-over-it')
FAULTS = ('killed', 'power-failure', 'power-failure-after-save', 'disk-error-open', 'disk-error-write',
          'disk-error-fsync', 'disk-error-close', 'disk-error-rename', 'disk-short-write',
          'interrupt-at-write', 'interrupt-at-rename')
ASSUMPTIONS = [
    'namespace operations become durable in the order in which they were made; file data '
    'becomes durable with fsync, and any part of it before',
    'a save that finished is durable before the next one begins (some seconds pass); '
    'durability of the last save is not demanded']


def setup():
    global collect, data_container
    from .. import collect as c
    from qopt import data_container as d
    collect, data_container = c, d


class Unpicklable:
    """Content of the user that fails when it is pickled for the nth time."""

    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise KINDS[self.exc]('injected while pickling')

    def __deepcopy__(self, memo):
        return self


def gen_fault(R):
    k = R.weighted((4, 'kill'), (4, 'power'), (4, 'error'), (1, 'short'), (1, 'interrupt'))
    f = {'kind': k, 'at': R.weighted((8, R.int(0, 6)), (2, R.int(4, 14)))}
    if k in ('kill', 'power') and R.chance(.5):
        f.update(torn=True, frac=R.pick(0., .3, .7, .99, 1.))
    if k == 'error':
        f.update(errno=R.pick('EIO', 'ENOSPC', 'EDQUOT', 'EROFS', 'EACCES', 'EMFILE'),
                 part=R.chance(.5), frac=R.pick(0., .4, .9), sticky=R.chance(.3))
    if k == 'short':
        f.update(sticky=R.chance(.7), frac=R.pick(.05, .5, .9))
    return f


def generate(R, tier):
    s = {'ops': [], 'kind': R.weighted((4, 'path'), (2, 'link'), (2, 'default'), (1, 'rel'),
                                       (.7, 'dir-link'))}
    s['noname'] = R.chance(.4)
    s['two'] = R.chance(.2)
    n = R.int(2, 8 if tier == 'quick' else 14)
    rate = R.pick(.4, .7, .9)
    for _ in range(n):
        o = R.weighted((3, 'append'), (5, 'save'), (.7, 'load'), (.6, 'poison'))
        op = {'o': o, 'w': R.int(0, 1) if s['two'] else 0}
        if o == 'append':
            op['r'] = collect.gen_result(R, ['a', 'b'], 2)
            if R.chance(.2):
                op['r']['big'] = R.pick(200, 900, 3000)
                op['r']['rec'] = True
        elif o == 'poison':
            op['exc'] = R.pick('ValueError', 'UserBug', 'MemoryError', 'KeyboardInterrupt')
            op['lambda'] = R.chance(.3)
            op['where'] = R.pick('stats', 'status', 'costs')
        elif o == 'save':
            op['choices'] = [R.int(0, 60) for _ in range(R.int(1, 6))]
            if R.chance(rate):
                op['f'] = gen_fault(R)
            elif R.chance(.4):
                op['late'] = True       # the power fails after the save returned
        s['ops'].append(op)
    return s


class History:
    def __init__(self, s, ctx):
        self.s, self.ctx = s, ctx
        self.d = diskm.Disk(ctx)
        self.cwd = os.getcwd()
        root = self.d.root
        os.mkdir(os.path.join(root, 'store'))
        self.store = os.path.join(root, 'store')
        self.name = 'results'
        k = s['kind']
        if k == 'link':
            os.mkdir(os.path.join(root, 'elsewhere'))
            self.real = os.path.join(root, 'elsewhere', 'target.bin')
            os.symlink(self.real, os.path.join(self.store, self.name))
            self.d.names[os.path.join(os.path.realpath(self.store), self.name)] = (
                'link', self.real)
            ctx.probe('symlink-destination')
        elif k == 'dir-link':
            os.symlink(self.store, os.path.join(root, 'alias'))
            self.store = os.path.join(root, 'alias')
            self.real = os.path.join(root, 'store', self.name)
            ctx.probe('symlink-destination')
        else:
            self.real = os.path.join(self.store, self.name)
        self.d.quiet()
        self.labels = ['a', 'b']
        # collections: [container, model, poisoned]
        self.c = [self.new(), self.new()]
        self.old = None             # model of what the destination holds
        self.failed = False
        self.stale = set()          # left by dead processes

    def new(self):
        if self.s['kind'] == 'default' and self.s.get('noname'):
            # the storage path alone names the file
            dc = data_container.DataContainer(
                storage_path=os.path.join(self.store, self.name), file_name=None,
                append_time_to_path=None)
        elif self.s['kind'] == 'default':
            dc = data_container.DataContainer(storage_path=self.store, file_name=self.name)
        else:
            dc = data_container.DataContainer(storage_path='not used', file_name='neither')
        return [dc, [], 0]

    def destination(self):
        k = self.s['kind']
        if k == 'default':
            self.ctx.probe('default-destination')
            return None
        if k == 'rel':
            self.ctx.probe('relative-destination')
            return os.path.join('store', self.name)
        return os.path.join(self.store, self.name)

    def run(self):
        os.chdir(self.d.root)
        try:
            for i, op in enumerate(self.s['ops']):
                self.ctx.ev('op', i, op['o'], op['w'])
                getattr(self, 'do_' + op['o'])(op)
        finally:
            os.chdir(self.cwd)
            self.d.close()

    def do_append(self, op):
        c = self.c[op['w']]
        r, labels, e = collect.make_result(op['r'])
        c[0].append_optim_result(r)
        c[1].append(e)

    def do_poison(self, op):
        """Content that cannot be pickled, removed again before the next step."""
        c = self.c[op['w']]
        if not c[1]:
            return
        bad = (lambda: 0) if op['lambda'] else Unpicklable(op['exc'])
        where = {'stats': c[0].optimization_statistics, 'status': c[0].status,
                 'costs': c[0].costs}[op['where']]
        self.ctx.probe('unpicklable')
        keep, where[-1] = where[-1], bad
        try:
            self.save(op['w'], None, [0], poisoned=bad)
            self.ctx.check(where[-1] is bad, 'failed-save-changes-collection', '')
        finally:
            where[-1] = keep
        self.compare(op['w'])

    def do_save(self, op):
        self.save(op['w'], op.get('f'), op['choices'], late=op.get('late', False))

    def do_load(self, op):
        if self.old is None:
            return
        dc = data_container.DataContainer.from_pickle(os.path.join(self.store, self.name))
        self.c[op['w']] = [dc, copy.deepcopy(self.old), 0]
        self.compare(op['w'])
        self.ctx.probe('reloaded')

    def compare(self, w):
        dc, model, _ = self.c[w]
        bad = collect.differs(dc, self.labels, model)
        self.ctx.check(bad is None, 'collection-changed', str(bad))

    def read(self, raw):
        """bytes -> DataContainer, by the real reader"""
        p = os.path.join(self.d.root, 'probe.bin')
        with diskm.R_open(p, 'wb') as f:
            f.write(raw)
        try:
            return data_container.DataContainer.from_pickle(p)
        finally:
            diskm.R['unlink'](p)

    def holds(self, raw, model):
        try:
            dc = self.read(raw)
        except Exception as e:
            return 'it cannot be read: %r' % e
        bad = collect.differs(dc, self.labels, model)
        return None if bad is None else str(bad)

    def save(self, w, fault, choices, poisoned=None, late=False):
        ctx, d = self.ctx, self.d
        dc, model, _ = self.c[w]
        if not model:
            ctx.state('empty')
        previous = copy.deepcopy(self.old)
        d.quiet()
        before_names = set(d.listing())
        try:
            with diskm.R_open(self.real, 'rb') as f:
                before = f.read()
        except OSError:
            before = None
        ctx.probe('existing-destination' if before is not None else 'fresh-destination')
        if self.stale & before_names:
            ctx.probe('stale-temporary-file')
        d.watch = self.real
        d.arm(fault, choices)
        d.install()
        err = None
        dest = self.destination()
        try:
            dc.to_pickle(dest)
        except BaseException as e:
            err = e
        finally:
            d.uninstall()
            d.look()
            d.fault = None
        trace = list(d.trace)
        died = d.dead
        hit = trace[fault['at']][0] if fault and fault['at'] < len(trace) else None
        if sum(1 for t in trace if t[0] == 'write') > 1:
            ctx.probe('several-writes')
        if died:
            if fault['kind'] == 'kill':
                ctx.probe('killed-at-%s' % hit)
        d.reboot() if died else d.reap_check(ctx) if hasattr(d, 'reap_check') else None
        if isinstance(err, diskm.Killed) and not died:
            raise RuntimeError('harness: killed without dying') from err
        # ---- at every instant: the old or the new content
        try:
            with diskm.R_open(self.real, 'rb') as f:
                after = f.read()
        except OSError:
            after = None
        verdict = {}
        for raw in d.seen + [after]:
            if raw in verdict:
                continue
            if raw == before:
                verdict[raw] = 'old'
                continue
            if raw is None:
                raise Violation('destination-lost', 'the file was there before the save; '
                                'operations: %r, fault %r' % (trace, fault))
            bad = self.holds(raw, model) if poisoned is None else 'nothing can be saved'
            ctx.check(bad is None, 'destination-neither-old-nor-new',
                      lambda: '%d bytes at some instant: %s; operations %r, fault %r'
                      % (len(raw), bad, trace, fault))
            verdict[raw] = 'new'
        ctx.state(fault and fault['kind'], hit, self.s['kind'], before is not None,
                  type(err).__name__, verdict.get(after))
        if fault and (d.fired is not None) and before is not None:
            ctx.nontrivial = True
        # ---- the outcome
        link = os.path.join(self.store, self.name)
        if died:
            self.stale |= set(d.listing()) - before_names - {self.real, link}
            self.failed = True
            self.restart(after, verdict.get(after), model, w)
            return
        fired = d.fired
        if err is None:
            ctx.check(poisoned is None, 'unpicklable-content-not-reported', '')
            # an error while removing a temporary file may be passed over
            ctx.check(fired is None or all(t[0] == 'unlink' for t in trace
                                           if t is trace[fault['at']]),
                      'failure-swallowed', lambda: 'the save returned although %r was '
                      'injected at %r of %r' % (fired, hit, trace))
            ctx.check(after is not None and self.holds(after, model) is None,
                      'returned-but-not-saved',
                      lambda: str(after is not None and self.holds(after, model)))
            ctx.probe('saved')
            if self.failed:
                ctx.probe('saved-again-after-failure')
            if self.old is not None and len(self.old) != len(model):
                ctx.probe('other-collection-over-it')
            self.failed = False
            self.old = copy.deepcopy(model)
            back = ctx.call('from_pickle', data_container.DataContainer.from_pickle, link)
            bad = collect.differs(back, self.labels, model)
            ctx.check(bad is None, 'read-back', str(bad))
            ctx.check((back.storage_path, back.file_name, back.append_time_to_path) ==
                      (dc.storage_path, dc.file_name, dc.append_time_to_path),
                      'read-back-attributes', '')
            ctx.probe('read-back')
        else:
            ctx.probe('failed-save')
            self.failed = True
            if fired is None and poisoned is None:
                raise Violation('unexpected-exception:to_pickle:' + type(err).__name__,
                                short_tb(err))
            ctx.check(poisoned is not None or related(err, fired), 'failure-misreported',
                      lambda: 'injected %r, caller got %r' % (fired, err))
            if verdict.get(after) == 'new':
                self.old = copy.deepcopy(model)
        self.compare(w) if poisoned is None else None
        extra = set(d.listing()) - before_names - {self.real, link}
        if d.failed_remove:
            self.stale |= extra
        else:
            ctx.check(not extra, 'temporary-file-left',
                      lambda: '%r after %r; operations %r, fault %r'
                      % (sorted(map(os.path.basename, extra)), err, trace, fault))
        if late and err is None and poisoned is None:
            self.power_cut(before, previous, model, w, trace)

    def power_cut(self, before, previous, model, w, trace):
        """The power fails right after a save returned, before the disk came to rest."""
        ctx, d = self.ctx, self.d
        ctx.fault('power-failure-after-save')
        ctx.probe('power-failure-after-save')
        d.dead = True
        d.power_failure()
        d.reboot()
        try:
            with diskm.R_open(self.real, 'rb') as f:
                raw = f.read()
        except OSError:
            raw = None
        self.failed = True
        if raw is None:
            ctx.check(before is None, 'destination-lost', lambda: 'a power failure after '
                      'the save destroyed it; operations %r' % (trace,))
            which = None
        elif raw == before:
            which = 'old'
        else:
            bad = self.holds(raw, model)
            ctx.check(bad is None, 'destination-neither-old-nor-new',
                      lambda: '%d bytes after a power failure following the save: %s; '
                      'operations %r' % (len(raw), bad, trace))
            which = 'new'
        ctx.state('late', self.s['kind'], before is not None, which)
        if before is not None:
            ctx.nontrivial = True
        self.old = previous
        self.restart(raw, which, model, w)

    def restart(self, raw, which, model, w):
        """The process is gone; a new one reads what is there."""
        if raw is None:
            self.old = None
        else:
            want = model if which == 'new' else self.old
            bad = self.holds(raw, want)
            self.ctx.check(bad is None, 'destination-unreadable-after-crash', str(bad))
            self.old = copy.deepcopy(want)
        for k in range(2):
            if self.old is None:
                self.c[k] = self.new()
            else:
                dc = data_container.DataContainer.from_pickle(
                    os.path.join(self.store, self.name))
                self.c[k] = [dc, copy.deepcopy(self.old), 0]
        self.ctx.probe('reloaded')


def related(err, fired):
    seen = []
    e = err
    while e is not None and e not in seen:
        if e is fired or isinstance(e, type(fired)):
            return True
        seen.append(e)
        e = e.__cause__ or e.__context__
    return False


def execute(s, ctx):
    History(s, ctx).run()


def simplify(s):
    if s['kind'] != 'path':
        yield dict(s, kind='path')
    if s['two']:
        yield dict(s, two=False, ops=[dict(o, w=0) for o in s['ops']])
    for i, op in enumerate(s['ops']):
        def put(**k):
            return dict(s, ops=s['ops'][:i] + [dict(op, **k)] + s['ops'][i + 1:])
        if op.get('f'):
            yield put(f=None)
            for k in ('torn', 'sticky', 'part'):
                if op['f'].get(k):
                    yield put(f=dict(op['f'], **{k: False}))
        if op['o'] == 'append':
            for k in ('big', 'dict', 'tie'):
                if op['r'].get(k):
                    yield put(r=dict(op['r'], **{k: None}))
            if op['r']['n'] > 1:
                yield put(r=dict(op['r'], n=1))
