"""P21: rendered matrices and plots show what the model holds.

Figures are drawn for real on an in-memory canvas and read back: the pixels of
each image, the labels of its rows and columns, the lines between clusters, the
curves and bars of the distributions.  Drawing calls and the progress stream
can fail at any point.
"""

import copy
import io
import math
import random
import sys

import numpy as np

from .. import core, world
from .hist import HistoryProp


class DrawError(RuntimeError):
    pass


class Failing(object):
    """Makes the n-th drawing call fail."""

    NAMES = ['matshow', 'plot', 'set_xticks', 'set_yticklabels', 'grid',
        'set_xticklabels', 'bar']

    def __init__(self, n):
        self.n, self.hit = n, False

    def __enter__(self):
        from matplotlib.axes import Axes
        self.saved = {}
        for name in self.NAMES:
            real = getattr(Axes, name)
            self.saved[name] = Axes.__dict__.get(name)

            def call(ax, *a, _real=real, **kw):
                self.n -= 1
                if self.n == 0:
                    self.hit = True
                    raise DrawError('cannot draw')
                return _real(ax, *a, **kw)
            setattr(Axes, name, call)
        return self

    def __exit__(self, *a):
        from matplotlib.axes import Axes
        for name, real in self.saved.items():
            if real is None:
                delattr(Axes, name)
            else:
                setattr(Axes, name, real)


class BrokenStream(io.StringIO):

    def write(self, s):
        raise BrokenPipeError('nobody is listening')


def scaled(x):
    """On the scale of the column: from its least to its greatest."""
    ok = ~np.isnan(x)
    if ok.any():
        lo, hi = x[ok].min(), x[ok].max()
        x = (x - lo) / ((hi - lo) or 1.)
    return x


def labels(axis):
    return [t.get_text() for t in axis]


class P21(HistoryProp):
    id = 'P21'
    runs = {'quick': 1200, 'thorough': 40000}
    wall = {'quick': 40., 'thorough': 780.}
    types = world.PRIMITIVE
    weights = dict(world.DEFAULT_WEIGHTS, kernel=4, relevance=0, inc_rows=.3,
        forces=.3)
    n_ops = (0, 7)
    large_rate = .05
    real = ['cgpm.utils.render', 'cgpm.utils.plots', 'cgpm.crosscat.state',
        'cgpm.mixtures.*', 'matplotlib', 'seaborn']
    stub = ['the canvas: figures stay in memory (Agg)', 'progress stream']
    assumptions = ['figures are read back as the arrays, labels, lines and '
        'bars handed to matplotlib, not as rasterised pixels']

    def prepare(self):
        import matplotlib
        matplotlib.use('Agg')
        HistoryProp.prepare(self)
        import seaborn                                           # noqa: F401
        from cgpm.utils import plots, render                     # noqa: F401

    def gen(self, rng, tier):
        plan = HistoryProp.gen(self, rng, tier)
        plan['shows'] = [dict(at=rng.choice([0, 50, 100]) if i else 100,
            what=rng.choice(['state', 'state', 'view', 'view', 'plot', 'plot',
                'zmatrix', 'data']), s=rng.randint(1, 10**6),
            fail=rng.randint(1, 30) if rng.random() < .25 else 0)
            for i in range(rng.choice([1, 2, 3]))]
        return plan

    def shrink(self, plan):
        for i in range(len(plan['shows'])):
            if len(plan['shows']) > 1:
                new = copy.deepcopy(plan)
                del new['shows'][i]
                yield new
        for new in HistoryProp.shrink(self, plan):
            yield new

    def begin(self, w, plan):
        self.plan, self.done = plan, 0
        self.shown = {}

    def after(self, w, op, before, result=None):
        n = max(1, len(self.plan['ops']))
        for i, show in enumerate(self.plan['shows']):
            if show['at'] * n // 100 == self.done and show['at'] < 100:
                self.show(w, show)
        if op is not None:
            self.done += 1

    def end(self, w, plan):
        for show in plan['shows']:
            if show['at'] >= 100:
                self.show(w, show)

    # ----------------------------------------------------------------------
    def show(self, w, show):
        import matplotlib.pyplot as plt
        ctx, rng = w.ctx, random.Random(show['s'])
        snap = world.snapshot(w.state)
        f = getattr(self, 'show_' + show['what'])
        try:
            if show['fail'] and show['what'] != 'zmatrix':
                with Failing(show['fail']) as bad:
                    try:
                        f(w, random.Random(show['s']), False)
                    except DrawError:
                        pass
                    except Exception as e:
                        # A wrapped failure is a failure all the same.
                        if not bad.hit:
                            raise
                        ctx.log('wrapped', type(e).__name__)
                if bad.hit:
                    ctx.fault('drawing call fails')
            f(w, rng, True)
        finally:
            plt.close('all')
        ctx.probe('show-' + show['what'])
        d = core.differ(snap, world.snapshot(w.state), 1e-9, 1e-9)
        ctx.check(d is None, 'changed', lambda: 'drawing the %s changed the '
            'model: %s' % (show['what'], d))

    def names(self, w, rng):
        st = w.state
        rows = ['r%d' % (3 * r + 1,) for r in range(st.n_rows())]
        cols = ['col%d' % (c,) for c in st.outputs]
        return rows, cols

    def options(self, w, rng):
        kw = {}
        if rng.random() < .4:
            kw['subsample'] = rng.randint(1, w.n_rows() + 2)
            if rng.random() < .5:
                kw['seed'] = rng.randint(1, 50)
        return kw

    def scored(self, view):
        """Whether every row can be given a score."""
        return all(any(not np.isnan(view.X[c][r]) for c in view.outputs[1:])
            for r in view.Zr())

    def show_view(self, w, rng, check):
        from cgpm.utils import render
        st = w.state
        v = rng.choice(sorted(st.views))
        view = st.views[v]
        rows, cols = self.names(w, rng)
        mine = [cols[st.outputs.index(c)] for c in view.outputs[1:]]
        kw = self.options(w, rng)
        how = rng.choice(['view', 'raw', 'default', 'bare'])
        if how == 'bare':
            # Unnamed rows and columns go by their numbers.
            rows = [str(r) for r in range(len(rows))]
            mine = [str(c) for c in view.outputs[1:]]
            fig, ax = render.viz_view_raw(view, **kw)
        elif how == 'default':
            rows = [str(r) for r in range(len(rows))]
            mine = [str(i) for i in range(len(mine))]
            fig, ax = render.viz_view(view, **kw)
        elif how == 'view':
            fig, ax = render.viz_view(view, None, list(rows), list(mine),
                **kw)
        else:
            fig, ax = render.viz_view_raw(view, None, list(rows), list(mine),
                **kw)
        if check:
            self.check_view(w, view, ax, rows, mine, kw)

    def show_data(self, w, rng, check):
        from cgpm.utils import render
        st = w.state
        rows, cols = self.names(w, rng)
        D = np.array([[w.table[c][r] for c in st.outputs]
            for r in range(w.n_rows())], dtype=float)
        keep = D.copy()
        if rng.random() < .5:
            fig, ax = render.viz_data(D, row_names=rows, col_names=cols)
        else:
            fig, ax = render.viz_data(D)
            rows = [str(i) for i in range(len(rows))]
            cols = [str(i) for i in range(len(cols))]
        if not check:
            return
        chk = w.ctx.check
        chk(((D == keep) | np.isnan(keep)).all(), 'argument-mutated',
            'drawing data changed them')
        chk(labels(ax.get_yticklabels()) == rows
            and labels(ax.get_xticklabels()) == cols, 'data-labels',
            lambda: 'rows %r and columns %r' % (
                labels(ax.get_yticklabels()), labels(ax.get_xticklabels())))
        img = np.ma.filled(np.ma.array(ax.images[0].get_array(),
            dtype=float), np.nan)
        for j, c in enumerate(st.outputs):
            d = core.differ(img[:, j].tolist(), scaled(keep[:, j]).tolist(),
                1e-9, 1e-9)
            chk(d is None, 'data-cells', lambda: 'column %r of %r: %s' % (j,
                keep.tolist(), d))

    def show_state(self, w, rng, check):
        from cgpm.utils import render
        st = w.state
        rows, cols = self.names(w, rng)
        kw = self.options(w, rng)
        how = rng.choice(['named', 'named', 'default'])
        if how == 'default':
            rows = [str(r) for r in range(len(rows))]
            cols = [str(i) for i in range(len(cols))]
        else:
            kw['row_names'], kw['col_names'] = list(rows), list(cols)
        if rng.random() < .3:
            out, broken = sys.stdout, rng.random() < .5
            if broken:
                sys.stdout = BrokenStream()
                try:
                    render.viz_state(st, progress=True, **kw)
                except BrokenPipeError:
                    w.ctx.fault('progress stream broken')
                finally:
                    sys.stdout = out
            sys.stdout = io.StringIO()
            try:
                fig, axes = render.viz_state(st, progress=True, **kw)
            finally:
                sys.stdout = out
        else:
            fig, axes = render.viz_state(st, **kw)
        if not check:
            return
        kw.pop('row_names', None), kw.pop('col_names', None)
        w.ctx.check(len(axes) == len(st.views), 'blocks', lambda: '%d blocks '
            'drawn as %d' % (len(st.views), len(axes)))
        seen, shown = [], []
        for ax in axes:
            # The columns drawn tell which block this is.
            got = labels(ax.get_xticklabels())
            w.ctx.check(bool(got) and got[0] in cols, 'columns', lambda:
                'columns %r drawn, of %r' % (got, cols))
            v = st.Zv(st.outputs[cols.index(got[0])])
            w.ctx.check(v not in seen, 'blocks', 'a block is drawn twice')
            seen.append(v)
            view = st.views[v]
            mine = [cols[st.outputs.index(c)] for c in view.outputs[1:]]
            shown.append(self.check_view(w, view, ax, rows, mine, kw))
        w.ctx.check(all(set(s) == set(shown[0]) for s in shown), 'subsample',
            lambda: 'blocks of one figure show different rows: %r' % (shown,))

    def check_view(self, w, view, ax, row_names, col_names, kw):
        """The picture of one block; returns the rows it shows."""
        chk = w.ctx.check
        n, outs = w.n_rows(), list(view.outputs[1:])
        img = np.ma.filled(np.ma.array(ax.images[0].get_array(),
            dtype=float), np.nan)
        ylab = labels(ax.get_yticklabels())
        xlab = labels(ax.get_xticklabels())
        chk(sorted(xlab) == sorted(col_names), 'columns', lambda:
            'columns %r drawn, of %r' % (xlab, col_names))
        chk(all(y in row_names for y in ylab) and len(set(ylab)) == len(ylab),
            'rows', lambda: 'rows %r drawn, of %r' % (ylab, row_names))
        sub = kw.get('subsample')
        want = min(sub, n) if sub else n
        chk(len(ylab) == want, 'rows', lambda: '%d rows drawn of %d, %r '
            'asked for' % (len(ylab), n, sub))
        chk(img.shape == (len(ylab), len(xlab)), 'shape', lambda: 'a matrix '
            'of shape %r for rows %r and columns %r' % (img.shape, ylab,
                xlab))
        rows = [row_names.index(y) for y in ylab]
        cols = [outs[col_names.index(x)] for x in xlab]
        # Each cell is that of its row and column, on the scale of the column.
        for j, c in enumerate(cols):
            x = scaled(np.array([w.table[c][r] for r in rows], dtype=float))
            d = core.differ(img[:, j].tolist(), x.tolist(), 1e-9, 1e-9)
            chk(d is None, 'cells', lambda: 'column %r, rows %r: drawn %r, '
                'of the table %r' % (c, rows, img[:, j].tolist(),
                    x.tolist()))
        # Clusters are together, smaller ones first, and lines between them.
        z = [view.Zr(r) for r in rows]
        runs = [z[0]] + [b for a, b in zip(z, z[1:]) if a != b]
        chk(len(set(runs)) == len(runs), 'clusters', lambda: 'the rows %r are '
            'of clusters %r, which are not together' % (rows, z))
        sizes = [z.count(k) for k in runs]
        chk(sizes == sorted(sizes), 'cluster-order', lambda: 'clusters of '
            'sizes %r in this order' % (sizes,))
        lines = sorted(round(float(l.get_ydata()[0]), 6) for l in ax.lines
            if list(l.get_ydata())[:1] == list(l.get_ydata())[1:])
        bounds = [i + .5 for i in range(len(z) - 1) if z[i] != z[i + 1]]
        chk(lines == bounds, 'boundaries', lambda: 'clusters %r with lines '
            'at %r' % (z, lines))
        # (the score of a value whose inputs are missing is itself a draw)
        sure = all(np.isnan(view.X[c][r]) or not any(
                np.isnan(view.X[i][r]) for i in view.dims[c].inputs[1:])
            for c in outs for r in rows)
        if self.scored(view) and sure:
            s = []
            for r in rows:
                given = {c: view.X[c][r] for c in outs
                    if not np.isnan(view.X[c][r])}
                s.append(view.logpdf(-1, given,
                    {view.outputs[0]: view.Zr(r)}))
            chk(all(not z[i] == z[i + 1] or s[i] <= s[i + 1] + 1e-7
                    for i in range(len(z) - 1)), 'row-order', lambda:
                'rows %r of clusters %r are drawn with predictive densities '
                '%r' % (rows, z, s))
        K = sorted(set(view.Zr().values()))
        t = [sum(view.dims[c].clusters[k].logpdf_score() for k in K
            if k in view.dims[c].clusters) for c in cols]
        chk(all(a <= b + 1e-7 for a, b in zip(t, t[1:])), 'column-order',
            lambda: 'columns %r are drawn with scores %r' % (cols, t))
        # The same choice of rows again, as long as the table is as long.
        if sub:
            key = (sub, kw.get('seed'), n)
            was = self.shown.setdefault(key, sorted(rows))
            chk(was == sorted(rows), 'subsample', lambda: 'rows %r chosen, '
                'then %r' % (was, sorted(rows)))
        w.ctx.log('drawn', rows, cols)
        w.ctx.probe('matrix')
        if np.isnan(img).any():
            w.ctx.probe('matrix-missing')
        return rows

    # ----------------------------------------------------------------------
    def show_plot(self, w, rng, check):
        st = w.state
        # There is no picture of an empty column, nor of a regression without
        # its inputs.
        if any(all(np.isnan(x) for x in w.table[c]) for c in st.outputs) \
                or any(d.model.is_conditional() for d in st.dims()):
            return
        fig = st.plot()
        if not check:
            return
        chk = w.ctx.check
        axes = fig.get_axes()
        dims = list(st.dims())
        chk(len(axes) == len(dims), 'axes', lambda: '%d plots of %d columns'
            % (len(axes), len(dims)))
        for dim, ax in zip(dims, axes):
            c = dim.index
            x = [v for v in w.table[c] if not np.isnan(v)]
            held = {k: m for k, m in dim.clusters.items() if m.N > 0}
            chk(ax.get_title() == dim.name(), 'title', lambda: 'column %r is '
                'a %s and titled %s' % (c, dim.name(), ax.get_title()))
            if dim.model.is_continuous():
                curves = [l for l in ax.lines if len(l.get_xdata()) > 2]
                chk(len(curves) >= 2, 'curves', lambda: '%d curves for '
                    '%d clusters' % (len(curves), len(held)))
                Y = list(curves[-1].get_xdata())
                got = [list(l.get_ydata()) for l in curves]
                chk(core.close(min(Y), min(x)) and core.close(max(Y), max(x)),
                    'range', lambda: 'column %r ranges from %r to %r, drawn '
                        'from %r to %r' % (c, min(x), max(x), Y[0], Y[-1]))
                ticks = sorted(float(s[0][0]) for q in ax.collections
                    for s in q.get_segments())
                chk(core.differ(ticks, sorted(map(float, x)), 1e-9, 1e-9)
                    is None, 'data', lambda: 'column %r holds %r and is drawn '
                    'with data at %r' % (c, sorted(x), ticks))
            else:
                Y = list(range(int(max(x)) + 1))
                h = [p.get_height() for p in ax.patches]
                at = [p.get_x() + p.get_width() / 2. for p in ax.patches]
                chk(len(h) % len(Y) == 0 and core.differ(at,
                        [float(y) for y in Y] * (len(h) // len(Y)), 1e-6,
                        1e-6) is None, 'bars', lambda: 'bars of column %r are '
                    'at %r' % (c, at))
                got = [h[i:i + len(Y)] for i in range(0, len(h), len(Y))]
                data = got.pop(0)
                want = [x.count(y) / float(len(x)) for y in Y]
                chk(core.differ(data, want) is None, 'data', lambda:
                    'column %r holds %r, drawn as %r' % (c, x, data))
            # Each cluster with its share, then their sum.
            want = [[m.N / float(len(x)) * math.exp(m.logpdf(None, {c: y}))
                for y in Y] for m in held.values()]
            total = np.sum(want, axis=0).tolist()
            d = core.differ(got[-1], total, 1e-6, 1e-9)
            chk(d is None, 'density', lambda: 'the density drawn for column '
                '%r of clusters %r is not theirs: %s' % (c, list(held), d))
            for g in want:
                chk(any(core.differ(h, g, 1e-6, 1e-9) is None
                    for h in got[:-1]), 'share', lambda: 'the share of a '
                    'cluster of column %r is not drawn' % (c,))
            w.ctx.probe('dist-' + dim.name())

    # ----------------------------------------------------------------------
    def show_zmatrix(self, w, rng, check):
        import matplotlib.pyplot as plt
        from cgpm.utils import plots
        st, chk = w.state, w.ctx.check
        cols = list(st.outputs)
        Zs = [dict(st.Zv())]
        for _ in range(rng.randint(0, 3)):
            k = rng.randint(1, len(cols))
            Zs.append({c: rng.randrange(k) for c in cols})
        order = sorted(cols) if rng.random() < .5 else rng.sample(cols,
            len(cols))
        given = None if order == sorted(cols) else list(order)

        def want(Zs):
            return [[sum(Z[a] == Z[b] for Z in Zs) / float(len(Zs))
                for b in order] for a in order]
        D = plots.partitions_to_zmatrix(copy.deepcopy(Zs), ordering=given)
        chk(core.differ(np.asarray(D).tolist(), want(Zs)) is None, 'zmatrix',
            lambda: 'partitions %r ordered %r as %r' % (Zs, order, D))
        past = [dict(z) for z in st.diagnostics.get('column_partition', [])]
        if past and all(set(z) == set(cols) for z in past):
            class Twins(object):
                states = [st, st]
            H = plots.engine_to_zmatrix_history(Twins(), ordering=list(order))
            chk(len(H) == len(past), 'history', lambda: '%d matrices of %d '
                'sweeps' % (len(H), len(past)))
            for h, z in zip(H, past):
                chk(core.differ(np.asarray(h).tolist(), want([z])) is None,
                    'history', lambda: 'partition %r ordered %r as %r' % (z,
                        order, h))
            w.ctx.probe('zmatrix-history')
        n = len(cols)
        xo, yo = rng.sample(range(n), n), rng.sample(range(n), n)
        xl = np.array(['x%d' % (c,) for c in order])
        yl = np.array(['y%d' % (c,) for c in order])
        D = np.array(D) + np.arange(n * n).reshape(n, n)
        keep = D.copy()
        ax = plots.plot_heatmap(D, xordering=xo, yordering=yo, xticklabels=xl,
            yticklabels=yl)
        got = np.asarray(ax.collections[0].get_array()).reshape(n, n)
        chk((got == keep[np.ix_(yo, xo)]).all() and (D == keep).all(),
            'heatmap', lambda: 'matrix %r reordered by %r and %r is drawn as '
            '%r' % (keep.tolist(), yo, xo, got.tolist()))
        chk(labels(ax.get_xticklabels()) == [xl[i] for i in xo]
            and labels(ax.get_yticklabels()) == [yl[i] for i in yo],
            'heatmap', 'labels are not those of the rows and columns')
        L = [[rng.uniform(-50, -1) for _ in range(3)]
            for _ in range(rng.randint(1, 3))]
        ax = plots.plot_logscore(copy.deepcopy(L))
        chk([list(l.get_ydata()) for l in ax.lines] == L, 'logscore',
            'the scores drawn are not those given')
        plt.close('all')


PROP = P21()
