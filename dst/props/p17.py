"""P17: dependence, similarity and relevance follow the partitions."""

import copy
import itertools
import math
import random

import numpy as np
from scipy.special import logsumexp

from .. import core, ref, world
from .hist import HistoryProp


class Node(object):
    """A composed component; only its wiring matters here."""

    def __init__(self, outputs, inputs):
        self.outputs, self.inputs = list(outputs), list(inputs)

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        return 0.

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        s = {t: 0. for t in targets}
        return s if N is None else [dict(s) for _ in range(N)]


def relevance(m, v, target, query):
    """Probability that the target row joins the query rows' cluster, by
    enumerating where all of them go."""
    view = m.st.views[v]
    Zr = {r: z for r, z in view.Zr().items()
        if r != target and r not in query}
    tables = sorted(set(Zr.values()))
    fresh = (max(tables) + 1 if tables else 0)
    same, every = [], []
    cache = {}

    def score(k, rows):
        """Marginal likelihood of cluster k with some rows added."""
        key = (k, tuple(rows))
        if key not in cache:
            Z = {r: 0 for r in [q for q in Zr if Zr[q] == k] + list(rows)}
            cache[key] = sum(m.marg(c, m.members(c, 0, Z))
                for c in view.dims)
        return cache[key]

    n = {k: sum(1 for z in Zr.values() if z == k) for k in tables}
    for kq in tables + [fresh]:
        for kt in tables + [fresh] + ([fresh + 1] if kq == fresh else []):
            counts = dict(n)
            counts[kq] = counts.get(kq, 0) + len(query)
            counts[kt] = counts.get(kt, 0) + 1
            lp = ref.crp(list(counts.values()), view.alpha())
            for k in set(tables) | {kq, kt}:
                rows = (list(query) if k == kq else []) + (
                    [target] if k == kt else [])
                lp += score(k, rows)
            every.append(lp)
            if kq == kt:
                same.append(lp)
    return math.exp(logsumexp(same) - logsumexp(every))


class P17(HistoryProp):
    id = 'P17'
    selfcheck = .12
    runs = {'quick': 3000, 'thorough': 150000}
    wall = {'quick': 40., 'thorough': 780.}
    weights = dict(world.DEFAULT_WEIGHTS, kernel=4, relevance=0)
    n_ops = (0, 8)
    stub = ['composed components: stubs with random wiring']
    assumptions = ['dependence between composed variables is conservative: '
        'all outputs of a component are dependent, and so are variables with '
        'a common ancestor',
        'relevance of a mixture is compared for component types with a closed '
        'form marginal likelihood']

    def gen(self, rng, tier):
        plan = HistoryProp.gen(self, rng, tier)
        plan['qseed'] = rng.randint(1, 10**9)
        if rng.random() < .35:
            # A composed network over the columns, in a random order.
            nodes, pool = [], list(range(6))
            for j in range(rng.randint(1, 4)):
                outs = [100 + 3 * j + i for i in range(rng.choice([1, 1, 2]))]
                ins = []
                for _ in range(rng.randint(0, 2)):
                    if rng.random() < .5 and nodes:
                        ins.append(rng.choice(rng.choice(nodes)[0]))
                    else:
                        ins.append(rng.randrange(6))
                nodes.append([outs, ins])
            plan['nodes'] = nodes
        return plan

    def shrink(self, plan):
        ns = plan.get('nodes')
        if ns:
            yield {k: v for k, v in plan.items() if k != 'nodes'}
            for i in range(len(ns)):
                gone = set(ns[i][0])
                if not any(gone & set(n[1]) for n in ns):
                    yield dict(plan, nodes=ns[:i] + ns[i + 1:])
        for p in HistoryProp.shrink(self, plan):
            yield p

    def begin(self, w, plan):
        w.qrng = random.Random(plan['qseed'])

    def after(self, w, op, before, result=None):
        st, ctx, rng = w.state, w.ctx, w.qrng
        cols, n = w.cols(), w.n_rows()
        chk = ctx.check
        snap = world.snapshot(st)
        Zv = {c: v for v, view in st.views.items() for c in view.dims}

        # Dependence between columns.
        a, b = rng.choice(cols), rng.choice(cols)
        want = 1. if Zv[a] == Zv[b] else 0.
        for x, y in ((a, b), (b, a)):
            got = st.dependence_probability(x, y)
            chk(float(got) == want, 'dependence', lambda: 'dependence of %r '
                'and %r is %r with blocks %r' % (x, y, got, Zv))
        some = rng.sample(cols, rng.randint(1, len(cols)))
        for cs in (None, some):
            D = st.dependence_probability_pairwise(colnos=cs) \
                if cs is not None or rng.random() < .5 \
                else st.dependence_probability_pairwise()
            names = cols if cs is None else cs
            chk(np.shape(D) == (len(names),) * 2, 'dependence-table',
                lambda: 'table of shape %r for %r' % (np.shape(D), names))
            for i, x in enumerate(names):
                for j, y in enumerate(names):
                    chk(float(D[i, j]) == float(Zv[x] == Zv[y]),
                        'dependence-table', lambda: 'entry (%r, %r) of the '
                        'table is %r, blocks %r' % (x, y, D[i, j], Zv))

        # Similarity between rows.
        Z = {v: dict(view.Zr()) for v, view in st.views.items()}

        def similarity(r, q, cs):
            vs = set(Zv[c] for c in cs)
            return sum(Z[v][r] == Z[v][q] for v in vs) / float(len(vs))
        r, q = rng.randrange(n), rng.randrange(n)
        for cs in (None, some):
            args = () if cs is None else (cs,)
            want = similarity(r, q, cols if cs is None else cs)
            for x, y in ((r, q), (q, r)):
                got = st.row_similarity(x, y, *args)
                chk(core.close(got, want), 'similarity', lambda: 'similarity '
                    'of rows %d and %d over %r is %r, %r expected' % (
                        x, y, cs, got, want))
            S = st.row_similarity_pairwise(*args)
            chk(np.shape(S) == (n, n), 'similarity-table', 'wrong shape')
            for x in range(n):
                for y in range(n):
                    chk(core.close(S[x, y], similarity(x, y,
                        cols if cs is None else cs)), 'similarity-table',
                        lambda: 'entry (%d, %d) of the table over %r is %r' % (
                            x, y, cs, S[x, y]))

        # Relevance in the present partition.
        c = rng.choice(cols)
        rows = rng.sample(range(n), rng.randint(0, min(3, n)))
        t = rng.randrange(n)
        want = int(bool(rows) and all(
            Z[Zv[c]][t] == Z[Zv[c]][x] for x in rows))
        got = st.relevance_probability(t, list(rows), c)
        chk(got == want, 'relevance-rows', lambda: 'relevance of rows %r to '
            'row %d for column %r is %r in the partition %r' % (
                rows, t, c, got, Z[Zv[c]]))
        if rng.random() < .4:
            hyp = []
            for _ in range(rng.randint(1, 2)):
                h = {d: world.cell(w.types[d][0], w.types[d][1],
                    rng.randint(0, 999) / 1000.) for d in rng.sample(
                        cols, rng.randint(1, len(cols)))}
                hyp.append(h)
            st.rng.seed(rng.randint(1, 10**6))
            got = st.relevance_probability(t, list(rows), c, hyp)
            mates = all(Z[Zv[c]][t] == Z[Zv[c]][x] for x in rows)
            chk(got in (0, 1) and not (got and not mates), 'relevance-rows',
                lambda: 'relevance with hypothetical rows is %r' % (got,))
        self.mixture(w, rng)
        if rng.random() < .15:
            self.apart(ctx, rng)
        d = core.differ(snap, world.snapshot(st), 1e-9, 1e-9)
        chk(d is None, 'changed', lambda: 'a summary changed the model: %s'
            % (d,))

    def apart(self, ctx, rng):
        """Clusters so far apart that a row has only one place to go."""
        from cgpm.crosscat.state import State
        n = rng.randint(3, 6)
        Z = [r % 2 for r in range(2 * n)]
        near = lambda z: 1000. * z + rng.uniform(-.1, .1)
        cols = rng.sample(range(1, 40), 4)
        here = rng.sample(cols, 3)
        X = np.array([[near(z) if c in here else rng.random()
            for c in cols] for z in Z])
        h = dict(m=500., r=1e-6, s=.1, nu=5.)
        st = State(X, outputs=cols, cctypes=['normal'] * 4,
            hypers=[dict(h) for _ in cols], Zv={c: int(c not in here)
                for c in cols}, Zrv={0: Z, 1: [0] * len(Z)},
            view_alphas={0: 1e-10, 1: 1.}, rng=np.random.RandomState(
                rng.randint(1, 10**8)))
        hyp, zs = [], []
        for _ in range(rng.randint(1, 3)):
            if rng.random() < .2:
                # Says nothing about the block.
                hyp.append({c: .5 for c in cols if c not in here})
                continue
            zs.append(rng.choice(zs + [0, 1]) if rng.random() < .7
                else rng.randrange(2))
            row = {c: near(zs[-1]) for c in rng.sample(here,
                rng.randint(1, 3))}
            if rng.random() < .4:
                row.update({c: .5 for c in cols if c not in here})
            hyp.append(row)
        t = rng.randrange(len(Z))
        rows = [r for r in rng.sample(range(len(Z)), rng.choice([0, 0, 1, 2]))
            if rng.random() < .5 or Z[r] == Z[t]]
        want = int(bool(rows or zs) and all(z == Z[t] for z in
            [Z[r] for r in rows] + zs))
        got = st.relevance_probability(t, list(rows), rng.choice(here), hyp)
        ctx.probe('apart')
        ctx.check(got == want, 'relevance-hypothetical', lambda: 'relevance '
            'of rows %r and hypothetical rows %r to row %d is %r, where %r '
            'is certain' % (rows, hyp, t, got, X.tolist()))

    def mixture(self, w, rng):
        """The probability over all assignments of the rows involved."""
        st, ctx = w.state, w.ctx
        m = ref.Model(st, w.table, w.types)
        v = rng.choice(sorted(st.views))
        view = st.views[v]
        n = w.n_rows()
        if n < 2 or not all(m.collapsed(c) for c in view.dims):
            return
        t = rng.randrange(n)
        others = [r for r in range(n) if r != t]
        k = rng.choice([1, 1, 2, 3, len(others)])
        query = rng.sample(others, min(k, len(others)))
        c = rng.choice(sorted(view.dims))
        if rng.random() < .1:
            got = view.relevance_probability(t, query + [t], c)
            ctx.check(core.close(got, 1.), 'relevance', 'a row is not '
                'relevant to itself: %r' % (got,))
            return
        asked = list(query)
        if rng.random() < .15:
            asked.insert(rng.randint(0, len(asked)), rng.choice(asked))
        snap = world.snapshot(st)
        got = view.relevance_probability(t, asked, c)
        d = core.differ(snap, world.snapshot(st), 1e-9, 1e-9)
        ctx.check(d is None, 'changed', lambda: 'the relevance of rows %r to '
            'row %d changed the model: %s' % (query, t, d))
        want = relevance(m, v, t, query)
        ctx.probe('mixture-relevance')
        if len(query) == n - 1:
            ctx.probe('mixture-relevance-all-rows')
        ctx.log('relevance', round(want, 9))
        ctx.check(core.close(got, want, 1e-4, 1e-6), 'relevance', lambda:
            'relevance of rows %r to row %d in block %r is %r, %r by '
            'enumeration' % (query, t, v, got, want))

    def end(self, w, plan):
        if not plan.get('nodes'):
            return
        st, rng, ctx = w.state, w.qrng, w.ctx
        cols = w.cols()
        nodes = []
        for outs, ins in plan['nodes']:
            ins = [cols[i % len(cols)] if i < 100 else i for i in ins]
            nodes.append(Node(outs, list(dict.fromkeys(ins))))
        order = list(nodes)
        rng.shuffle(order)
        # Components enter in any order; later ones may feed earlier ones.
        for nd in order:
            st.compose_cgpm(nd)
        Zv = dict(st.Zv())
        maker = {o: nd for nd in nodes for o in nd.outputs}

        def closure(x):
            """Everything x rests on, itself included."""
            seen, todo = set(), [x]
            while todo:
                y = todo.pop()
                if y in seen:
                    continue
                seen.add(y)
                if y in maker:
                    todo += maker[y].outputs + maker[y].inputs
                else:
                    todo += [c for c in Zv if Zv[c] == Zv[y]]
            return seen
        names = cols + sorted(maker)
        for _ in range(12):
            x, y = rng.choice(names), rng.choice(names)
            if x == y:
                continue
            want = float(bool(closure(x) & closure(y)))
            got = [st.dependence_probability(x, y),
                st.dependence_probability(y, x)]
            ctx.probe('composite-dependence')
            ctx.check(got == [want, want], 'dependence-network', lambda:
                'dependence of %r and %r is %r, %r from the network %r and '
                'blocks %r' % (x, y, got, want,
                    [(nd.outputs, nd.inputs) for nd in nodes], Zv))
        some = rng.sample(names, rng.randint(1, min(4, len(names))))
        D = st.dependence_probability_pairwise(some)
        for i, x in enumerate(some):
            for j, y in enumerate(some):
                want = 1. if i == j else float(bool(closure(x) & closure(y)))
                ctx.check(float(D[i, j]) == want, 'dependence-network',
                    lambda: 'entry (%r, %r) of the table is %r' % (
                        x, y, D[i, j]))


PROP = P17()
