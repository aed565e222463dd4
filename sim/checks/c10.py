"""C10: a result collection is a faithful list of runs under every history."""
import copy
import os
import pickle

import numpy as np

from .. import disk as diskm
from ..kernel import Violation, short_tb

collect = data_container = analyser = optimization_data = opt = None
ID = 'C10'
RUNS = {'quick': 3600, 'thorough': 150000}
SHRINK_LISTS = ('ops',)
RULE = ('a run is a seeded history over up to five collections: appending made-up results '
        'and results of real optimisations, refused and broken appends, copying, pickling, '
        'saving (with disk errors) and loading, changing the content of copies and '
        'originals, and analysing; after every step every collection is compared with its '
        'executable model; non-trivial: a copy or loaded collection was compared after its '
        'original had changed, or the reverse')
STATE_MEASURE = ('distinct (operation, sizes of the collections, kinship of the collections, '
                 'outcome) situations')
PROBES = ('appended', 'copied', 'loaded', 'saved', 'refused', 'broken', 'mutated',
          'mutated-relative', 'analysed', 'analyser-kept', 'tie', 'real-run', 'same-optimizer',
          'save-failed', 'load-failed', 'empty-copied', 'appended-to-copy', 'without-record',
          'without-statistics', 'scalar-costs', 'as-dictionary', 'plotted', 'pickled',
          'copied-in-list', 'time-sums', 'absolute-costs')
FAULTS = ('disk-error-open', 'disk-error-write', 'disk-error-rename', 'disk-error-close')
ASSUMPTIONS = ['the content of a result that was appended to two collections is not changed '
               'in place by the user (whether the two collections share it is not specified)']


def setup():
    global collect, data_container, analyser, optimization_data, opt, REAL, STUB
    import matplotlib
    matplotlib.use('Agg')
    from .. import collect as c, opt as o
    from qopt import analyser, data_container, optimization_data
    collect, opt = c, o
    REAL = ['qopt.data_container', 'qopt.analyser', 'qopt.optimization_data', 'pickle and '
            'copy', 'qopt optimizers (in the runs with real-run)']
    STUB = ['the disk (failing operations)', 'made-up optimisation results',
            'clocks, cost functions and part of the drivers in the real runs']


def generate(R, tier):
    k = R.int(1, 3)
    s = {'labels': ['cost %d' % i for i in range(k)], 'scalar': k == 1 and R.chance(.5),
         'ops': []}
    s['dict'] = R.chance(.2)
    if R.chance(.25):
        s['lab'] = opt.gen(R, tier, 'C07', runs=(1, 4), nsteps=5)
        for r in s['lab']['runs']:
            r.pop('f', None)
    n = R.int(3, 12 if tier == 'quick' else 30)
    for _ in range(n):
        o = R.weighted((6, 'append'), (1, 'refuse'), (.6, 'broken'), (1.5, 'copy'),
                       (1.2, 'save'), (1.2, 'load'), (.5, 'pickle'), (2, 'mutate'),
                       (1.5, 'analyse'), (.4, 'new'), (1.5 if s.get('lab') else 0, 'run'),
                       (.15, 'plot'), (.3, 'append-both'), (.2, 'load-missing'),
                       (.3, 'copy-list'))
        op = {'o': o, 'w': R.int(0, 4), 'v': R.int(0, 4)}
        if o in ('append', 'append-both', 'refuse', 'broken'):
            op['r'] = collect.gen_result(R, s['labels'], k, s['scalar'])
            op['r']['dict'] = s['dict']
        if o == 'append' and R.chance(.01):
            op['more'] = R.int(20, 200)
            op['r']['big'] = None
        if o == 'refuse':
            op['how'] = R.pick('other', 'order', 'more', 'fewer', 'none')
        if o == 'broken':
            op['how'] = R.pick('final_cost', 'indices', 'init_parameters', 'final_parameters',
                               'status', 'optimization_stats', 'optim_summary',
                               'summary.costs', 'summary.parameters')
        if o in ('mutate', 'analyse', 'plot'):
            op['n'] = R.int(0, 5)
        if o == 'mutate':
            op['field'] = R.pick('final_costs', 'init_parameters', 'final_parameters', 'costs',
                                 'parameters', 'stats', 'stats-entry', 'costs-list', 'remove',
                                 'labels')
        if o in ('save', 'load'):
            op['file'] = R.int(0, 1)
        if o == 'save' and R.chance(.35):
            op['f'] = {'kind': 'error', 'at': R.int(0, 6), 'part': R.chance(.5), 'frac': .5,
                       'errno': R.pick('EIO', 'ENOSPC')}
        if o == 'run':
            op['r'] = R.int(0, len(s['lab']['runs']) - 1)
        s['ops'].append(op)
    return s


class C:
    """A collection and its model."""

    def __init__(self, dc, labels, model, attributes, family):
        self.dc, self.labels, self.model = dc, labels, model
        self.attributes = attributes
        self.family = family
        self.analyser = None
        self.given_labels = False   # the list of labels may belong to somebody else


def attributes(dc):
    return dc.storage_path, dc.file_name, dc.append_time_to_path


class History:
    def __init__(self, s, ctx):
        self.s, self.ctx = s, ctx
        self.d = diskm.Disk(ctx)
        self.cs = []
        self.files = {}
        self.gid = 0
        self.family = 0
        self.foreign = None
        self.new()

    def new(self):
        i = len(self.cs)
        at = (os.path.join(self.d.root, 'default%d' % i),
              None if i % 3 == 1 else 'file%d' % i, (True, False, None, 'yes')[i % 4])
        dc = data_container.DataContainer(storage_path=at[0], file_name=at[1],
                                          append_time_to_path=at[2])
        self.add(dc, None, [], at, None)

    def add(self, dc, labels, model, at, family):
        if family is None:
            self.family += 1
            family = self.family
        c = C(dc, labels, model, at, family)
        self.cs.append(c)
        if len(self.cs) > 5:
            self.cs.pop(0)
        return c

    def pick(self, i):
        return self.cs[i % len(self.cs)]

    def fresh(self, model):
        """A copy of model entries that shares nothing with the original."""
        out = copy.deepcopy(model)
        for e in out:
            self.gid += 1
            e['gid'] = self.gid
        return out

    def run(self):
        try:
            for i, op in enumerate(self.s['ops']):
                self.ctx.ev('op', i, op['o'], op['w'])
                self.changed = None
                getattr(self, 'do_' + op['o'].replace('-', '_'))(op)
                self.compare(op['o'])
                self.ctx.state(op['o'], [len(c.model) for c in self.cs],
                               [c.family for c in self.cs].index(
                                   self.pick(op['w']).family), op.get('how'), op.get('field'))
        finally:
            self.d.close()
            opt.close()

    def compare(self, what):
        for k, c in enumerate(self.cs):
            bad = collect.differs(c.dc, c.labels, c.model)
            self.ctx.check(bad is None, 'after-%s:%s' % (what, bad and bad[0]),
                           lambda: 'collection %d: %s' % (k, bad[1]))
            self.ctx.check(attributes(c.dc) == c.attributes, 'after-%s:attributes' % what,
                           lambda: '%r' % (attributes(c.dc),))
            if self.changed is not None and c is not self.changed and c.model and \
                    c.family == self.changed.family:
                self.ctx.nontrivial = True

    # ----------------------------------------------------------- changes
    def do_new(self, op):
        self.new()

    def append(self, c, res, labels, e):
        self.gid += 1
        self._append(c, res, labels, dict(e, gid=self.gid))

    def _append(self, c, res, labels, e):
        if not c.model:
            c.labels = list(labels)
        self.ctx.call('append', c.dc.append_optim_result, res)
        c.model.append(e)
        self.changed = c
        self.ctx.probe('appended')
        if any(x is not c and x.family == c.family for x in self.cs):
            self.ctx.probe('appended-to-copy')

    def note(self, r):
        for key, probe in (('rec', 'without-record'), ('stats', 'without-statistics')):
            if not r.get(key, True):
                self.ctx.probe(probe)
        if r.get('scalar'):
            self.ctx.probe('scalar-costs')
        if r.get('dict'):
            self.ctx.probe('as-dictionary')

    def do_append(self, op):
        c = self.pick(op['w'])
        res, labels, e = collect.make_result(op['r'])
        if c.model and c.labels != labels:
            return self.refused(c, res)
        self.note(op['r'])
        self.append(c, res, labels, e)
        for k in range(op.get('more', 0)):
            res, labels, e = collect.make_result(dict(op['r'], s=op['r']['s'] + 1 + k))
            self.append(c, res, labels, e)

    def do_append_both(self, op):
        """One result in two collections."""
        a, b = self.pick(op['w']), self.pick(op['v'])
        res, labels, e = collect.make_result(op['r'])
        if a is b or a.model and a.labels != labels or b.model and b.labels != labels:
            return
        self.gid += 1
        self._append(a, res, labels, dict(e, gid=self.gid))
        self._append(b, res, labels, dict(e, gid=self.gid))
        a.given_labels = b.given_labels = True

    def do_run(self, op):
        """A real optimisation."""
        s = self.s['lab']
        if self.foreign is None:
            self.foreign = opt.Lab(s, self.ctx), {}
        lab, used = self.foreign
        # (a collection holds the runs of one simulation)
        r = s['runs'][op['r']]
        sim = s['opts'][r['opt']]['sim']
        c = self.pick(op['w'])
        rr = lab.run(op['r'], r)
        if rr.result is None or not np.all(np.isfinite(np.atleast_1d(np.asarray(
                rr.result.final_cost, float)))):
            return
        labels = [l for f in rr.sim.cost_funcs for l in f.label]
        if c.model and c.labels != labels:
            return self.refused(c, rr.result)
        e = {'final_costs': rr.result.final_cost,
             'init_parameters': rr.result.init_parameters,
             'final_parameters': rr.result.final_parameters,
             'status': rr.result.status, 'costs': [], 'parameters': [], 'stats': None}
        if rr.result.optim_summary is not None:
            e['costs'] = rr.result.optim_summary.costs
            e['parameters'] = rr.result.optim_summary.parameters
        st = rr.result.optimization_stats
        if st is not None:
            e['stats'] = [st.start_t_opt, st.end_t_opt, st.indices, st.cost_func_eval_times,
                          st.grad_func_eval_times]
        e = copy.deepcopy(e)
        e['real'] = True
        self.append(c, rr.result, labels, e)
        c.given_labels = True
        self.ctx.probe('real-run')
        if used.get(r['opt']):
            self.ctx.probe('same-optimizer')
        used[r['opt']] = True

    def refused(self, c, res):
        try:
            c.dc.append_optim_result(res)
        except Exception:
            self.ctx.probe('refused')
            return
        raise Violation('mixed-labels-accepted', '%r then %r' % (c.labels, res.indices))

    def do_refuse(self, op):
        c = self.pick(op['w'])
        if not c.model:
            return
        res, labels, e = collect.make_result(op['r'])
        how = op['how']
        other = {'other': ['x'] + labels[1:], 'order': labels[::-1], 'more': labels + ['x'],
                 'fewer': labels[:-1], 'none': []}[how]
        if other == c.labels:
            return
        res.indices = other
        self.refused(c, res)

    def do_broken(self, op):
        """A result that cannot be read: nothing may be left behind."""
        c = self.pick(op['w'])
        res, labels, e = collect.make_result(dict(op['r'], rec=True))
        how = op['how']
        owner = res
        if how.startswith('summary.'):
            owner, how = res.optim_summary, how[8:]
        delattr(owner, how)
        try:
            c.dc.append_optim_result(res)
        except Exception:
            self.ctx.probe('broken')
            return
        raise Violation('broken-result-accepted', 'without ' + op['how'])

    def do_mutate(self, op):
        """The user changes the content of one collection in place."""
        c = self.pick(op['w'])
        if not c.model:
            return
        i = op['n'] % len(c.model)
        e = c.model[i]
        if sum(x['gid'] == e['gid'] for y in self.cs for x in y.model) > 1:
            return
        f = op['field']
        dc = c.dc
        if f in ('final_costs', 'init_parameters', 'final_parameters'):
            lst = {'final_costs': dc.final_costs, 'init_parameters': dc.init_parameters,
                   'final_parameters': dc.final_parameters}[f]
            if not isinstance(lst[i], np.ndarray) or not lst[i].flags.writeable or \
                    e.get('real'):
                return
            lst[i] += 1.5
            e[f] = e[f] + 1.5
        elif f in ('costs', 'parameters'):
            lst = (dc.costs if f == 'costs' else dc.parameters)[i]
            if not lst:
                return
            v = np.array(lst[-1]) * 0 - 3.5
            if isinstance(lst[-1], np.ndarray) and lst[-1].flags.writeable and \
                    not e.get('real'):
                lst[-1][...] = v
            else:
                lst[-1] = v
            e[f] = e[f][:-1] + [v]
        elif f == 'costs-list':
            if not e['costs']:
                return
            dc.costs[i].append(np.array(dc.costs[i][-1]))
            dc.parameters[i].append(np.array(dc.parameters[i][-1]))
            e['costs'] = e['costs'] + [e['costs'][-1]]
            e['parameters'] = e['parameters'] + [e['parameters'][-1]]
        elif f in ('stats', 'stats-entry'):
            st = dc.optimization_statistics[i]
            if st is None:
                return
            if f == 'stats':
                st.start_t_opt = -7.
                e['stats'] = [-7.] + e['stats'][1:]
            else:
                if not st.cost_func_eval_times:
                    return
                row = [.25] * len(st.cost_func_eval_times[0])
                st.cost_func_eval_times.append(row)
                e['stats'] = e['stats'][:3] + [list(e['stats'][3]) + [row]] + e['stats'][4:]
        elif f == 'labels':
            if c.given_labels:
                return
            dc.indices[0] = dc.indices[0] + '*'
            c.labels = [c.labels[0] + '*'] + c.labels[1:]
        elif f == 'remove':
            for lst in (dc.final_costs, dc.init_parameters, dc.final_parameters, dc.costs,
                        dc.parameters, dc.status, dc.optimization_statistics):
                del lst[i]
            del c.model[i]
        self.ctx.probe('mutated')
        self.changed = c
        if any(x is not c and x.family == c.family for x in self.cs):
            self.ctx.probe('mutated-relative')

    # ----------------------------------------------------------- copies
    def do_copy(self, op):
        c = self.pick(op['w'])
        how = op['v'] % 2
        dc = self.ctx.call('copy', copy.deepcopy, c.dc) if how else \
            self.ctx.call('copy', c.dc.__deepcopy__)
        self.ctx.probe('copied' if c.model else 'empty-copied')
        self.check_type(dc)
        self.add(dc, copy.copy(c.labels), self.fresh(c.model), attributes(c.dc), c.family)

    def do_copy_list(self, op):
        """Copied as part of a structure of the user."""
        c = self.pick(op['w'])
        d = self.ctx.call('copy', copy.deepcopy, {'best': c.dc, 'note': [1, 2]})
        self.ctx.probe('copied-in-list')
        self.check_type(d['best'])
        self.add(d['best'], copy.copy(c.labels), self.fresh(c.model), attributes(c.dc),
                 c.family)

    def do_pickle(self, op):
        c = self.pick(op['w'])
        dc = self.ctx.call('pickle', lambda: pickle.loads(pickle.dumps(c.dc)))
        self.ctx.probe('pickled')
        self.check_type(dc)
        self.add(dc, copy.copy(c.labels), self.fresh(c.model), attributes(c.dc), c.family)

    def check_type(self, dc):
        self.ctx.check(type(dc) is data_container.DataContainer, 'copy-type', str(type(dc)))

    def path(self, i):
        return os.path.join(self.d.root, 'results %d.pickle' % i)

    def do_save(self, op):
        c = self.pick(op['w'])
        d = self.d
        now = (copy.copy(c.labels), copy.deepcopy(c.model), c.attributes, c.family)
        d.install()
        d.arm(op.get('f'))
        err = None
        try:
            c.dc.to_pickle(self.path(op['file']))
        except Violation:
            raise
        except BaseException as e:
            err = e
        finally:
            d.uninstall()
        d.quiet()
        if err is None:
            self.ctx.probe('saved')
            self.files[op['file']] = [now]
        else:
            if d.fired is None:
                raise Violation('unexpected-exception:to_pickle:' + type(err).__name__,
                                short_tb(err))
            self.ctx.probe('save-failed')
            # which of the two is there is the business of C09
            self.files[op['file']] = (self.files.get(op['file']) or [None]) + [now]

    def do_load(self, op):
        have = self.files.get(op['file'])
        if not have:
            return
        p = self.path(op['file'])
        if None in have and not os.path.exists(p):
            self.files[op['file']] = None
            return
        dc = self.ctx.call('from_pickle', data_container.DataContainer.from_pickle, p)
        self.ctx.probe('loaded')
        bad = None
        for h in have:
            if h is None:
                continue
            labels, model, at, family = h
            bad = collect.differs(dc, labels, model)
            if bad is None:
                self.files[op['file']] = [h]
                self.add(dc, copy.copy(labels), self.fresh(model), at, family)
                return
        raise Violation('loaded:' + bad[0], bad[1])

    def do_load_missing(self, op):
        try:
            data_container.DataContainer.from_pickle(os.path.join(self.d.root, 'missing'))
        except OSError:
            self.ctx.probe('load-failed')
            return
        raise Violation('missing-file-loaded', '')

    # ----------------------------------------------------------- analysis
    def do_analyse(self, op):
        c = self.pick(op['w'])
        if not c.model:
            return
        ctx = self.ctx
        if c.analyser is None:
            c.analyser = analyser.Analyser(c.dc)
        else:
            ctx.probe('analyser-kept')
        for a in (c.analyser, analyser.Analyser(c.dc)):
            self.analysis(a, c, op['n'] % len(c.model))
        ctx.probe('analysed')

    def analysis(self, a, c, n):
        ctx = self.ctx
        sizes = {np.shape(e['final_costs']) for e in c.model}
        if len(sizes) == 1:
            sq = [float(np.sum(np.square(e['final_costs']))) for e in c.model]
            got = ctx.call('n_least_square', lambda: a.n_least_square)
            ctx.check(isinstance(got, (int, np.integer)) and 0 <= got < len(sq) and
                      sq[got] <= min(sq) * (1 + 1e-12), 'best-run',
                      lambda: 'run %r of sums of squares %r' % (got, sq))
            if len(set(sq)) < len(sq):
                ctx.probe('tie')
        stats = [e['stats'] for e in c.model]
        for k, f, total, share in (
                (3, a.integral_cost_fkt_times, a.total_cost_fkt_time, a.time_share_cost_fkt),
                (4, a.integral_grad_fkt_times, a.total_grad_fkt_time, a.time_share_grad_fkt)):
            if stats[n] is not None:
                self.close_to(ctx.call('integral', f, n), np.sum(stats[n][k], axis=0),
                              'sum-of-times')
                ctx.probe('time-sums')
            if all(s is not None and s[1] is not None for s in stats):
                w = float(sum(np.sum(s[k]) for s in stats))
                self.close_to(ctx.call('total', total), w, 'total-of-times')
                t = [s[1] - s[0] for s in stats]
                self.close_to(ctx.call('opt_times', a.opt_times), t, 'run-times')
                if sum(t) > 0:
                    self.close_to(ctx.call('share', share), w / sum(t), 'time-share')
        if all(e['costs'] for e in c.model) and \
                len({np.shape(x) for e in c.model for x in e['costs']}) == 1:
            longest = max(len(e['costs']) for e in c.model)
            want = np.full((len(c.model), longest), np.nan)
            for i, e in enumerate(c.model):
                for j, x in enumerate(e['costs']):
                    want[i, j] = np.sqrt(np.sum(np.square(x)))
            if np.all(np.isfinite([x for e in c.model for x in e['costs']][0])):
                self.close_to(ctx.call('absolute_costs', a.absolute_costs), want,
                              'absolute-costs')
                ctx.probe('absolute-costs')

    def close_to(self, got, want, sig):
        self.ctx.check(np.shape(got) == np.shape(want) and
                       np.allclose(got, want, rtol=1e-9, atol=1e-12, equal_nan=True), sig,
                       lambda: '%r instead of %r' % (got, want))

    def do_plot(self, op):
        """The lines of the plots are the recorded costs."""
        from matplotlib.figure import Figure
        c = self.pick(op['w'])
        if not c.model:
            return
        n = op['n'] % len(c.model)
        costs = c.model[n]['costs']
        if not costs or np.ndim(costs[0]) != 1 or not np.all(np.isfinite(costs)):
            return
        ax = Figure().subplots()
        self.ctx.call('plot', analyser.Analyser(c.dc).plot_costs, n, False, ax)
        got = [np.asarray(l.get_ydata(), float) for l in ax.get_lines()]
        self.close_to(got, np.asarray(costs, float).T, 'plotted-costs')
        self.ctx.check([l.get_label() for l in ax.get_lines()] == c.labels, 'plotted-labels',
                       '')
        self.ctx.probe('plotted')


def execute(s, ctx):
    History(s, ctx).run()


def simplify(s):
    if s.get('lab') and not any(o['o'] == 'run' for o in s['ops']):
        yield {k: v for k, v in s.items() if k != 'lab'}
    for i, op in enumerate(s['ops']):
        def put(**k):
            return dict(s, ops=s['ops'][:i] + [dict(op, **k)] + s['ops'][i + 1:])
        if op.get('f'):
            yield put(f=None)
        if op.get('r') and isinstance(op['r'], dict):
            if op['r']['n'] > 1:
                yield put(r=dict(op['r'], n=1))
            for k in ('dict', 'tie'):
                if op['r'].get(k):
                    yield put(r=dict(op['r'], **{k: False}))
        if op['w']:
            yield put(w=0)
