"""P04: partitions stay well formed through every history."""

import numpy as np

from .. import world
from .hist import HistoryProp


def check_partitions(w):
    """Every structural invariant, from the accessors, against the table."""
    st, ctx = w.state, w.ctx
    cols = list(st.outputs)
    rows = list(range(w.n_rows()))
    chk = ctx.check

    chk(len(set(cols)) == len(cols) and set(cols) == set(w.table),
        'columns', lambda: 'outputs %r, table %r' % (cols, sorted(w.table)))
    chk(set(st.X) == set(cols), 'columns',
        lambda: 'stored columns %r, outputs %r' % (sorted(st.X), cols))
    chk(all(len(st.X[c]) == len(rows) for c in cols), 'rows',
        lambda: 'column lengths %r, expected %d' % (
            {c: len(st.X[c]) for c in cols}, len(rows)))
    chk(st.n_rows() == len(rows) and st.n_cols() == len(cols), 'counts',
        'n_rows/n_cols disagree with the table')
    Zv, Nv = st.Zv(), st.Nv()
    chk(set(Zv) == set(cols), 'column-partition',
        lambda: 'Zv covers %r, columns %r' % (sorted(Zv), sorted(cols)))
    want = {}
    for c in cols:
        want[Zv[c]] = want.get(Zv[c], 0) + 1
    chk(dict(Nv) == want, 'block-counts',
        lambda: 'Nv %r, recount %r' % (dict(Nv), want))
    chk(set(st.views) == set(want), 'blocks',
        lambda: 'views %r, blocks in use %r' % (
            sorted(st.views), sorted(want)))
    chk(st.alpha() > 0, 'alpha', 'alpha %r' % (st.alpha(),))
    for v, view in st.views.items():
        mine = set(c for c in cols if Zv[c] == v)
        chk(set(view.dims) == mine, 'block-members',
            lambda: 'view %r holds %r, partition says %r' % (
                v, sorted(view.dims), sorted(mine)))
        chk(len(view.outputs) == 1 + len(mine)
            and set(view.outputs[1:]) == mine, 'block-outputs',
            lambda: 'view %r outputs %r' % (v, view.outputs))
        chk(view.alpha() > 0, 'alpha', 'view alpha %r' % (view.alpha(),))
        Zr, Nk = view.Zr(), view.Nk()
        chk(set(Zr) == set(rows), 'row-partition',
            lambda: 'view %r: Zr covers %r, rows %r' % (
                v, sorted(Zr), rows))
        nk = {}
        for r in rows:
            nk[Zr[r]] = nk.get(Zr[r], 0) + 1
        chk(dict(Nk) == nk, 'cluster-counts',
            lambda: 'view %r: Nk %r, recount %r' % (v, dict(Nk), nk))
        chk(view.n_rows() == len(rows), 'counts', 'view.n_rows')
        for c, d in view.dims.items():
            chk(d.index == c, 'dim-index', 'dim %r under %r' % (d.index, c))
            chk(d.inputs[0] == view.outputs[0], 'dim-inputs',
                lambda: 'dim %r reads cluster variable %r of view %r (%r)' % (
                    c, d.inputs[0], v, view.outputs[0]))
            present = {}
            for r in rows:
                vals = [w.table[c][r]] + [w.table[i][r]
                    for i in d.inputs[1:]]
                present[r] = not any(world.isnan(x) for x in vals)
            zr = {r: Zr[r] for r in rows if present[r]}
            zi = {r: Zr[r] for r in rows if not present[r]}
            chk(dict(d.Zr) == zr, 'dim-members',
                lambda: 'column %r: present members %r, expected %r' % (
                    c, dict(d.Zr), zr))
            chk(dict(d.Zi) == zi, 'dim-missing',
                lambda: 'column %r: missing members %r, expected %r' % (
                    c, dict(d.Zi), zi))
            chk(set(d.clusters) == set(nk), 'dim-clusters',
                lambda: 'column %r: clusters %r, view clusters %r' % (
                    c, sorted(d.clusters), sorted(nk)))
            seen = {}
            for k, g in d.clusters.items():
                chk(not any(g is o for o in seen.values()), 'shared-cluster',
                    'column %r: clusters share an object' % (c,))
                seen[k] = g
                n = sum(1 for r in zr if zr[r] == k)
                chk(int(g.N) == n, 'cluster-size',
                    lambda: 'column %r cluster %r: N=%r, %d cells present' % (
                        c, k, g.N, n))
            told = d.get_suffstats()
            own = {k: d.clusters[k].get_suffstats() for k in d.clusters}
            chk(all(k in told and dict(told[k]) == dict(own[k])
                for k in own) and len(told) == len(own) + 1,
                'reported-clusters', lambda: 'column %r: the statistics '
                'reported %r, of the clusters %r' % (c, told, own))
            chk(int(d.aux_model.N) == 0, 'aux-not-empty',
                lambda: 'column %r: fresh component has N=%r' % (
                    c, d.aux_model.N))


class P04(HistoryProp):
    id = 'P04'
    constraints_rate = .15
    selfcheck = .12
    runs = {'quick': 4000, 'thorough': 200000}
    wall = {'quick': 35., 'thorough': 780.}
    assumptions = ['rows 0 and 1 of every column are observed and distinct, '
        'so that hyperparameter grids exist for every type',
        'cells are missing or in the support of their column type']

    def after(self, w, op, before, result=None):
        check_partitions(w)


PROP = P04()
