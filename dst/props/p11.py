"""P11: inference respects its iteration and time budgets and counts honestly.

The clock behind `time` is simulated: it moves only while a kernel runs, by
the duration the plan gives to that invocation (including stalls and jumps far
past the deadline).  Kernels are the real ones, wrapped to record when they
start and end; some are made to fail.
"""

import re
import sys

from .. import core, simclock, world
from .hist import HistoryProp

KERNELS = ['alpha', 'view_alphas', 'column_params', 'column_hypers', 'rows',
    'columns']
METHOD = dict(alpha='transition_crp_alpha',
    view_alphas='transition_view_alphas', column_params='transition_dim_params',
    column_hypers='transition_dim_hypers', rows='transition_view_rows',
    columns='transition_dims')


class KernelFailure(RuntimeError):
    pass


class Foreign(object):
    """A composed component which records its transitions."""

    def __init__(self, outputs, inputs, hook):
        self.outputs, self.inputs, self.hook = outputs, inputs, hook
        self.rng = None

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        return 0.

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        s = {t: 0. for t in targets}
        return s if N is None else [dict(s) for _ in range(N)]

    def transition(self, *a, **k):
        self.hook(self)


def parts(st):
    """What each kernel may change, by part."""
    d = {('alpha',): float(st.alpha())}
    for c, v in st.Zv().items():
        d[('Zv', c)] = v
    for v, view in st.views.items():
        d[('view_alpha', v)] = float(view.alpha())
        for r, z in view.Zr().items():
            d[('Zr', v, r)] = z
        for c, dim in view.dims.items():
            d[('hypers', c)] = tuple(sorted(
                (h, float(x)) for h, x in dim.hypers.items()))
            for k, g in dim.clusters.items():
                p = g.get_params()
                if p and not dim.is_collapsed() and 'forest' not in p:
                    d[('params', c, k)] = tuple(sorted(
                        (n, float(x)) for n, x in p.items()))
    for c in st.X:
        d[('X', c)] = tuple(map(repr, st.X[c]))
    return d


class P11(HistoryProp):
    id = 'P11'
    runs = {'quick': 3000, 'thorough': 150000}
    wall = {'quick': 40., 'thorough': 780.}
    weights = dict(world.DEFAULT_WEIGHTS)
    n_ops = (0, 4)
    constraints_rate = .15
    real = HistoryProp.real + ['cgpm.utils.timer']
    stub = ['clock (time, datetime): simulated', 'composed components: '
        'recording stubs']
    rule = ('one evaluation = one simulated run (random history, then up to '
        'four budgeted inference calls under a simulated clock); distinct = '
        'distinct event-log digests of runs that started at least one kernel')
    assumptions = ['the clock never runs backwards and moves only while a '
        'kernel runs', 'the restriction arguments name existing columns, '
        'views and rows']

    def gen(self, rng, tier):
        plan = HistoryProp.gen(self, rng, tier)
        plan['ops'] = [o for o in plan['ops'] if o['op'] not in (
            'kernel', 'transition')]
        plan['foreign'] = rng.choice([0, 0, 1, 2, 3])
        plan['calls'] = [self.gen_call(rng, plan)
            for _ in range(rng.randint(1, 4))]
        return plan

    def gen_call(self, rng, plan):
        call = dict(s=rng.randint(1, 10**6),
            foreign=bool(plan['foreign']) and rng.random() < .4)
        r = rng.random()
        if r < .4:
            ks = rng.sample(KERNELS, rng.randint(1, 6))
        elif r < .6:
            ks = [rng.choice(KERNELS) for _ in range(rng.randint(1, 5))]
        else:
            ks = None
        call['kernels'] = ks
        r = rng.random()
        call['N'] = rng.choice([None, 0, 1, 1, 2, 3, 5])
        call['S'] = rng.choice([None, None, 0, .25, 1, 2, 7, 30])
        # Durations in quarters of a second: exact in floating point.
        scale = rng.choice([1, 1, 4, 40])
        call['durs'] = [rng.choice([1, 1, 2, 3]) * scale * .25
            for _ in range(rng.randint(1, 12))]
        if rng.random() < .3:
            call['durs'][rng.randrange(len(call['durs']))] = 1000.
        if rng.random() < .1:
            call['jump'] = [rng.randrange(8), rng.choice([.25, 5., 3600.])]
        call['ckpt'] = rng.choice([None, None, 1, 1, 2, 3])
        call['progress'] = rng.choice([True, False, False, None])
        if rng.random() < .2:
            call['fail'] = rng.randrange(12)
        r = rng.random()
        if r < .25:
            call['cols'] = [rng.randrange(6) for _ in range(
                rng.randint(1, 3))]
        elif r < .35:
            call['views'] = [rng.randrange(6) for _ in range(
                rng.randint(1, 2))]
        if rng.random() < .25:
            call['rows'] = [rng.randrange(12) for _ in range(
                rng.randint(1, 3))]
        return call

    def shrink(self, plan):
        cs = plan['calls']
        for i in range(len(cs)):
            if len(cs) > 1:
                yield dict(plan, calls=cs[:i] + cs[i + 1:])
            for k in ('fail', 'jump', 'cols', 'views', 'rows', 'ckpt',
                    'kernels', 'S', 'N'):
                if cs[i].get(k) is not None:
                    yield dict(plan, calls=cs[:i] + [dict(cs[i], **{k: None})]
                        + cs[i + 1:])
            if len(cs[i]['durs']) > 1:
                yield dict(plan, calls=cs[:i] + [dict(cs[i],
                    durs=cs[i]['durs'][:1])] + cs[i + 1:])
        if plan['foreign']:
            yield dict(plan, foreign=0)
        for p in HistoryProp.shrink(self, plan):
            yield p

    def nontrivial(self, plan, ctx):
        return ctx.probes.get('kernel-started', 0) > 0

    def end(self, w, plan):
        self.comps = {}
        self.hook = lambda comp: None
        used = set(w.cols())
        for j in range(plan['foreign']):
            out = [100 + 2 * j] + ([101 + 2 * j] if j == 1 else [])
            inp = [w.cols()[j % len(w.cols())]]
            f = Foreign(out, inp, lambda comp: self.hook(comp))
            self.comps[w.state.compose_cgpm(f)] = f
        for call in plan['calls']:
            self.call(w, call)

    # -------------------------------------------------------------------------
    def call(self, w, call):
        st, ctx = w.state, w.ctx
        clock = simclock.Clock()
        events = []         # [name, start, end, snapshot after]
        state = dict(n=0)
        foreign = call['foreign']
        kernels = call['kernels']
        cols = views = rows = None
        if call.get('cols') is not None:
            cols = list(dict.fromkeys(
                w.cols()[i % len(w.cols())] for i in call['cols']))
        if call.get('views') is not None:
            vs = sorted(st.views)
            views = list(dict.fromkeys(vs[i % len(vs)] for i in call['views']))
        if call.get('rows') is not None:
            rows = list(dict.fromkeys(
                i % w.n_rows() for i in call['rows']))
        conditional = bool(w.conditional_dims())
        if foreign:
            tokens = sorted(self.comps)
            if cols is not None:
                outs = [o for t in tokens for o in self.comps[t].outputs]
                cols = list(dict.fromkeys(
                    outs[i % len(outs)] for i in call['cols']))
                tokens = [t for t in tokens
                    if set(cols) & set(self.comps[t].outputs)]
            sweep = ['foreign-%s' % (t,) for t in tokens]
        else:
            if kernels is None:
                sweep = list(KERNELS)
            else:
                sweep = list(kernels)
            if (conditional or st.Cd) and 'columns' in sweep:
                # Column moves are refused with conditional columns (P07)
                # and dependence constraints (P08).
                if kernels is None:
                    kernels = list(KERNELS)
                kernels = [k for k in kernels if k != 'columns']
                sweep = list(kernels)
            if views is not None and 'columns' in sweep:
                # The views named may not outlive a column move.
                views = None
            if w.n_rows() < 2:
                # A single row has nothing to move.
                if kernels is None:
                    kernels = list(KERNELS)
                kernels = [k for k in kernels if k != 'rows']
                sweep = list(kernels)
        if not sweep:
            return
        N, S = call['N'], call['S']
        if N is None and S is None:
            want_N = 1
        else:
            want_N = N
        # There is no score to record under independence constraints.
        checkpoint = None if foreign or st.Ci else call['ckpt']

        def started(name):
            i = state['n']
            state['n'] += 1
            ctx.probe('kernel-started')
            if call.get('jump') and call['jump'][0] == i:
                # The jump happens while the kernel runs.
                ctx.fault('clock-jump')
            events.append([name, clock.now, None, None])
            return i

        def finished(i):
            d = call['durs'][i % len(call['durs'])]
            if d >= 100:
                ctx.fault('kernel-stall')
            if call.get('jump') and call['jump'][0] == i:
                d += call['jump'][1]
            clock.advance(d)
            events[i][2] = clock.now
            if checkpoint:
                events[i][3] = (st.logpdf_score(), st.alpha(), dict(st.Zv()))

        def failing(i):
            if call.get('fail') is not None and call['fail'] == i:
                ctx.fault('kernel-failure')
                clock.advance(.25)
                raise KernelFailure('injected')

        def wrap(k):
            real = getattr(st, METHOD[k])

            def kernel(*a, **kw):
                i = started(k)
                failing(i)
                before = parts(st)
                r = real(*a, **kw)
                self.frame(w, k, before, parts(st), cols, views, rows)
                finished(i)
                return r
            setattr(st, METHOD[k], kernel)

        def hook(comp):
            token = [t for t in self.comps if self.comps[t] is comp][0]
            i = started('foreign-%s' % (token,))
            failing(i)
            finished(i)

        diag0 = world.plain({k: list(v) if isinstance(v, list) else dict(v)
            for k, v in st.diagnostics.items()})
        st.rng.seed(call['s'])
        for k in KERNELS:
            wrap(k)
        self.hook = hook
        mark = sys.stdout.tell() if hasattr(sys.stdout, 'tell') else None
        error = None
        try:
            with simclock.using(clock):
                if foreign:
                    kw = dict(cols=cols) if cols is not None else {}
                    st.transition_foreign(N=N, S=S,
                        progress=call['progress'], **kw)
                else:
                    st.transition(N=N, S=S, kernels=kernels, cols=cols,
                        views=views, rowids=rows, progress=call['progress'],
                        checkpoint=checkpoint)
        except KernelFailure as e:
            error = e
        finally:
            for k in KERNELS:
                st.__dict__.pop(METHOD[k], None)
            self.hook = lambda comp: None
        out = sys.stdout.getvalue()[mark:] if mark is not None else ''
        ctx.simtime += clock.now - clock.start
        ctx.ops += 1
        ctx.log('call', N, S, sweep, [e[:3] for e in events])
        ctx.probe('budget-%s%s' % ('N' if N is not None else '',
            'S' if S is not None else ''))
        self.judge(w, call, sweep, want_N, S, clock, events, diag0, error,
            checkpoint, foreign, out)

    def judge(self, w, call, sweep, N, S, clock, events, diag0, error, ckpt,
            foreign, out):
        st, ctx = w.state, w.ctx
        chk = ctx.check
        t0 = clock.start
        K = len(sweep)
        names = [e[0] for e in events]
        what = lambda: 'N=%r S=%r kernels=%r durations=%r' % (
            call['N'], S, sweep, call['durs'])
        diag1 = st.diagnostics
        it0 = diag0.get('iterations', {})
        it1 = dict(diag1.get('iterations', {}))
        delta = {k: it1.get(k, 0) - it0.get(k, 0)
            for k in set(it0) | set(it1)}
        if not events and any(delta.values()):
            ctx.probe('opaque')
            return
        # Order.
        if foreign:
            # Any order, the same in every sweep.
            for i in range(0, len(names), K):
                blk = names[i:i + K]
                chk(len(set(blk)) == len(blk) and set(blk) <= set(sweep)
                    and blk == names[:len(blk)], 'order', lambda:
                    'sweep over %r ran %r' % (sweep, names))
        else:
            want = [sweep[i % K] for i in range(len(names))]
            chk(names == want, 'order', lambda: '%s: kernels ran in the order '
                '%r' % (what(), names))
        # A failure surfaces, and ends the run.
        failed = bool(events) and events[-1][2] is None
        chk((error is not None) == failed, 'failure', lambda:
            'a kernel failed and the call %s' % (
                'raised' if error else 'returned normally',))
        done = [e for e in events if e[2] is not None]
        sweeps = len(done) // K
        # Budgets.
        for i, e in enumerate(events):
            chk(N is None or i // K < N, 'iterations', lambda: '%s: kernel %d '
                'starts after all sweeps are done' % (what(), i))
            chk(S is None or e[1] - t0 < S, 'deadline', lambda: '%s: kernel '
                '%d (%s) starts %r s into the budget' % (
                    what(), i, e[0], e[1] - t0))
        if not failed:
            spent = (S is not None and clock.now - t0 >= S)
            chk(spent or (N is not None and len(done) == N * K), 'premature',
                lambda: '%s: stopped after %d kernels and %r s' % (
                    what(), len(done), clock.now - t0))
        # Counts.
        ran = {}
        for e in done:
            ran[e[0]] = ran.get(e[0], 0) + 1
        got = {k: n for k, n in delta.items() if n}
        # The stub is interrupted inside the component, before it is counted.
        chk(got == ran, 'counts', lambda: '%s: ran %r, counted %r' % (
            what(), ran, got))
        # Checkpoints.
        for key in ('logscore', 'column_crp_alpha', 'column_partition'):
            old, new = diag0.get(key, []), list(diag1.get(key, []))
            chk(core.differ(new[:len(old)], old, path='old') is None,
                'checkpoint', lambda: 'earlier %s entries changed' % (key,))
            fresh = new[len(old):]
            due = [done[(j + 1) * K - 1][3] for j in range(sweeps)
                if (j + 1) % ckpt == 0] if ckpt else []
            chk(len(fresh) == len(due), 'checkpoint', lambda: '%s, checkpoint '
                'every %r: %d sweeps, %d entries of %s' % (
                    what(), ckpt, sweeps, len(fresh), key))
            for f, (score, alpha, Zv) in zip(fresh, due):
                if key == 'logscore':
                    ok = core.close(f, score)
                elif key == 'column_crp_alpha':
                    ok = core.close(f, alpha)
                else:
                    ok = dict(f) == Zv
                chk(ok, 'checkpoint', lambda: '%s, checkpoint every %r: %s '
                    'recorded %r, at that moment %r' % (what(), ckpt, key, f,
                        (score, alpha, Zv)))
        # Progress.
        if call['progress'] is False:
            chk(out == '', 'progress', 'progress=False printed %r' % (
                out[:80],))
        m = re.findall(r'Completed: (\d+) iterations in ([0-9.]+)', out)
        if m and not failed:
            chk(int(m[-1][0]) == sweeps and core.close(
                float(m[-1][1]), clock.now - t0, atol=1e-3), 'report',
                lambda: '%s: reported %r, %d sweeps in %r s' % (
                    what(), m[-1], sweeps, clock.now - t0))

    def frame(self, w, k, before, after, cols, views, rows):
        """A restricted kernel leaves everything else alone."""
        st = w.state
        Zv = {key[1]: v for key, v in before.items() if key[0] == 'Zv'}
        in_cols = lambda c: cols is None or c in cols
        if views is not None:
            in_view = lambda v: v in views
        elif cols is not None:
            mine = set(Zv[c] for c in cols)
            in_view = lambda v: v in mine
        else:
            in_view = lambda v: True

        def allowed(key):
            kind = key[0]
            if kind == 'X':
                return False
            if k == 'alpha':
                return kind == 'alpha'
            if k == 'view_alphas':
                return kind == 'view_alpha' and in_view(key[1])
            if k == 'column_params':
                return kind == 'params' and in_cols(key[1])
            if k == 'column_hypers':
                return kind == 'hypers' and in_cols(key[1])
            if k == 'rows':
                if kind == 'Zr':
                    return in_view(key[1]) and (rows is None
                        or key[2] in rows)
                return kind == 'params' and in_view(Zv[key[1]])
            if k == 'columns':
                if kind in ('Zv', 'params'):
                    return in_cols(key[1])
                # Blocks appear and disappear with the columns.
                if cols is None:
                    return kind in ('view_alpha', 'Zr')
                return kind in ('view_alpha', 'Zr') and key[1] not in set(
                    Zv[c] for c in Zv if c not in cols)
            return False
        bad = [key for key in set(before) | set(after)
            if before.get(key) != after.get(key) and not allowed(key)]
        w.ctx.check(not bad, 'frame', lambda: 'kernel %s (cols=%r views=%r '
            'rows=%r) changed %r' % (k, cols, views, rows,
                sorted(map(repr, bad))[:4]))


PROP = P11()
