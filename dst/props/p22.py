"""P22: fresh models are drawn from their prior, and learning maps exact
posterior draws to exact posterior draws.

Small models have few enough partitions and grid points for the posterior to
be enumerated.  A model is put in a state drawn from that posterior, the real
kernel is run, and the state it leaves is mapped to uniform numbers by the
same enumeration; over many repetitions they must be uniform.
"""

import itertools
import math
import random

import numpy as np
from scipy import stats

from .. import core, pred, ref, world

FILTER, P_MIN = 1e-3, 1e-9
SMALL = ['bernoulli', 'categorical']
CLOSED = ['bernoulli', 'categorical', 'poisson', 'geometric', 'exponential',
    'normal', 'lognormal', 'vonmises']
KERNELS = ['alpha', 'view_alphas', 'column_params', 'column_hypers', 'rows',
    'columns']


def partitions(n):
    """All partitions of n things, as canonical label tuples."""
    out = [()]
    for _ in range(n):
        out = [z + (k,) for z in out for k in range(max(z + (-1,)) + 2)]
    return out


def canon(Z, keys):
    m = {}
    return tuple(m.setdefault(Z[k], len(m)) for k in keys)


def counts(z):
    return [z.count(k) for k in sorted(set(z))]


def lmean(ls):
    return float(np.logaddexp.reduce(ls) - math.log(len(ls)))


class Law(object):
    """A finite law: draws, and the uniform number of a value."""

    def __init__(self, values, logw, rng=None):
        self.values = list(values)
        order = list(range(len(self.values)))
        if rng is not None:
            rng.shuffle(order)
        self.values = [self.values[i] for i in order]
        w = np.array([logw[i] for i in order], dtype=float)
        p = np.exp(w - np.logaddexp.reduce(w))
        self.p = p
        self.cum = np.concatenate([[0.], np.cumsum(p)])
        self.index = {v: i for i, v in enumerate(self.values)}

    def draw(self, V):
        i = int(np.searchsorted(self.cum, V.rand() * self.cum[-1],
            side='right')) - 1
        return self.values[min(max(i, 0), len(self.values) - 1)]

    def u(self, value, V):
        i = self.index.get(value)
        if i is None or self.p[i] <= 0:
            return None
        return self.cum[i] + V.rand() * self.p[i]


class Grid(Law):
    """A law on grid points, which may repeat."""

    def __init__(self, values, logw):
        vals = {}
        for v, l in zip(values, logw):
            v = float(v)
            vals[v] = np.logaddexp(vals[v], l) if v in vals else l
        keys = sorted(vals)
        Law.__init__(self, keys, [vals[k] for k in keys])

    def u(self, value, V):
        value = float(value)
        near = [k for k in self.values if abs(k - value) <= 1e-9 * abs(k)]
        return Law.u(self, near[0], V) if near else None


class Tiny(object):
    """A small table, its hyperparameters and closed-form scores."""

    def __init__(self, plan):
        self.cols = [c['id'] for c in plan['cols']]
        self.type = {c['id']: (c['cctype'], c['distargs'])
            for c in plan['cols']}
        self.data = {c['id']: world.data_of(c) for c in plan['cols']}
        self.n = len(plan['cols'][0]['u'])
        self.cache = {}

    def marg(self, c, z, h):
        """log marginal likelihood of column c for row partition z."""
        key = (c, z, tuple(sorted(h.items())))
        if key not in self.cache:
            groups = {}
            for r, k in enumerate(z):
                x = self.data[c][r]
                if not world.isnan(x):
                    groups.setdefault(k, []).append(x)
            t, d = self.type[c]
            self.cache[key] = sum(self.one(t, d, h, xs)
                for xs in groups.values())
        return self.cache[key]

    def one(self, t, d, h, xs):
        key = (t, str(d), tuple(sorted(h.items())), tuple(xs))
        if key not in self.cache:
            self.cache[key] = float(ref.marginal(t, d, h, xs))
        return self.cache[key]


def state(T, Zv, Zrv, alpha, view_alphas, hypers, rng, **kw):
    from cgpm.crosscat.state import State
    X = np.asarray([T.data[c] for c in T.cols], dtype=float).T
    if Zv is not None:
        kw.update(Zv=Zv)
        if Zrv is not None:
            kw.update(Zrv={v: list(z) for v, z in Zrv.items()})
    return State(X, outputs=list(T.cols),
        cctypes=[T.type[c][0] for c in T.cols],
        distargs=[dict(T.type[c][1]) if T.type[c][1] else None
            for c in T.cols],
        alpha=alpha, view_alphas=view_alphas,
        hypers=[dict(hypers[c]) for c in T.cols] if hypers else None,
        rng=rng, **kw)


class P22(core.Prop):
    id = 'P22'
    runs = {'quick': 1500, 'thorough': 60000}
    wall = {'quick': 50., 'thorough': 780.}
    run_timeout = 240
    real = ['cgpm.crosscat.state', 'cgpm.mixtures.*', 'cgpm.primitives.*',
        'cgpm.utils.sampling', 'cgpm.utils.general', 'cgpm.utils.validation']
    stub = []
    rule = ('one evaluation = one simulated experiment (one small model and '
        'kernel schedule, hundreds of seeded repetitions); distinct = '
        'distinct event-log digests')
    assumptions = ['models of up to 4 rows and 4 columns, whose posterior can '
        'be enumerated; structure moves for types with closed form marginal '
        'likelihood',
        'concentrations and hyperparameters are uniform on their grids',
        'an experiment with p < 1e-3 is repeated with ten times the draws '
        'and alarms at p < 1e-9']

    def prepare(self):
        import cgpm.crosscat.state
        from cgpm.utils import config, sampling
        for t in world.PRIMITIVE:
            config.cctype_class(t)

    def nontrivial(self, plan, ctx):
        return ctx.checks >= 1

    # ----------------------------------------------------------------------
    def gen(self, rng, tier):
        kind = rng.choice(['sweep', 'sweep', 'sweep', 'rows', 'columns',
            'columns', 'hypers', 'params', 'init', 'init', 'incorporate',
            'samplers', 'samplers', 'view', 'rows'])
        n_cols, n_rows = rng.choice({
            'sweep': [(1, 3), (2, 2), (2, 3), (3, 2)],
            'columns': [(2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4)],
            'rows': [(1, 3), (1, 4), (2, 3), (2, 4)],
            'view': [(1, 3), (2, 3), (1, 4)],
            'incorporate': [(1, 3), (2, 3), (2, 4), (1, 2)],
            'init': [(1, 3), (2, 3), (3, 2), (4, 2), (3, 3)],
            }.get(kind, [(1, 4), (1, 6)]))
        types = SMALL if kind in ('sweep', 'view') else CLOSED
        zero = rng.random() < .6 or kind == 'init'
        ids = list(range(n_cols)) if zero else rng.sample(range(30), n_cols)
        cols = []
        for c in ids:
            t = rng.choice(types)
            cols.append(dict(id=c, cctype=t,
                distargs=world.gen_distargs(rng, t),
                u=world.gen_us(rng, n_rows, rng.choice([0., 0., .3]),
                    rng.choice([None, 2, 3]))))
        plan = dict(kind=kind, cols=cols, seed=rng.randint(1, 10**8),
            n=rng.choice([200, 300] if tier == 'quick' else [300, 500]),
            big=3000 if tier == 'quick' else 6000,
            g=rng.randint(1, 10**6), reps=rng.choice([1, 1, 1, 2]))
        if kind == 'sweep':
            plan['kernels'] = rng.choice([None,
                [rng.choice(KERNELS) for _ in range(rng.randint(1, 4))],
                [rng.choice(KERNELS[:2] + KERNELS[3:])]])
            if rng.random() < .4:
                plan['some'] = rng.choice(['cols', 'rowids', 'views'])
            plan['restore'] = rng.random() < .2
        if kind == 'columns':
            plan['m'] = rng.choice([1, 1, 2, 3])
            if n_cols > 1 and zero and rng.random() < .3:
                plan['Ci'] = [rng.sample(range(n_cols), 2)]
            if rng.random() < .3:
                plan['some'] = 'cols'
        if kind in ('rows', 'view') and rng.random() < .5:
            plan['some'] = rng.choice(['rowids', 'views', 'cols'])
        if kind == 'init':
            plan['given'] = rng.random() < .4
            if n_cols > 1 and rng.random() < .6:
                k = rng.sample(range(n_cols), rng.randint(2, n_cols))
                if rng.random() < .5:
                    plan['Cd'] = [k]
                    if n_cols == 4 and rng.random() < .5:
                        plan['Cd'] = [k[:2], [c for c in range(4)
                            if c not in k[:2]]]
                else:
                    plan['Ci'] = [k[:2]]
                    rest = [c for c in range(n_cols) if c not in k[:2]]
                    if rest and rng.random() < .4:
                        plan['Cd'] = [[k[0], rest[0]]]
        if kind == 'params':
            plan.update(n=100, big=1500)
            plan['model'] = rng.choice(['beta', 'normal_trunc'])
            plan['rows'] = rng.randint(0, 6)
        if kind == 'samplers':
            plan['sampler'] = rng.choice(['mh', 'mh', 'slice', 'reject'])
            plan['target'] = rng.choice(['expon', 'gamma', 'beta', 'uniform',
                'truncated', 'normal', 'mixture'])
            plan['jump'] = rng.choice([.1, .5, 2., 5.])
            plan['take'] = rng.choice([1, 1, 3])
            plan['burn'] = rng.choice([1, 1, 5, 100])
            plan['lag'] = rng.choice([1, 1, 2, 3])
            # The jump adapts after twenty moves, which is not exactly
            # invariant: short chains are judged more closely.
            if plan['burn'] < 20:
                plan.update(n=1500, big=15000)
        return plan

    def shrink(self, plan):
        if plan.get('reps', 1) > 1:
            yield dict(plan, reps=1)
        for k in ('some', 'Ci', 'Cd', 'restore'):
            if plan.get(k):
                yield {a: b for a, b in plan.items() if a != k}
        ks = plan.get('kernels')
        if ks and len(ks) > 1:
            for i in range(len(ks)):
                yield dict(plan, kernels=ks[:i] + ks[i + 1:])
        cols = plan['cols']
        if len(cols) > 1 and not plan.get('Cd') and not plan.get('Ci'):
            for i in range(len(cols)):
                new = cols[:i] + cols[i + 1:]
                if [c['id'] for c in cols] == list(range(len(cols))):
                    new = [dict(c, id=j) for j, c in enumerate(new)]
                yield dict(plan, cols=new)
        for c in cols:
            if c['cctype'] != 'bernoulli':
                yield dict(plan, cols=[dict(d, cctype='bernoulli',
                    distargs=None) if d is c else d for d in cols])

    # ----------------------------------------------------------------------
    def execute(self, plan, ctx):
        self.rng = random.Random(plan['seed'])
        self.cdf = None
        one = getattr(self, 'kind_' + plan['kind'])(plan, ctx)
        if one is None:
            return
        ctx.ops += 1
        p, test, which = self.experiment(one, plan, plan['n'], 1, ctx)
        ctx.probe(plan['kind'])
        ctx.log(plan['kind'], '%.6g' % p)
        if p >= FILTER:
            ctx.check(True, 'law', '')
            return
        ctx.probe('repeat')
        p, test, which = self.experiment(one, plan, plan['big'], 2, ctx)
        ctx.log('repeat', '%.6g' % p)
        ctx.check(p >= P_MIN, 'law-' + plan['kind'], lambda: '%s: over %d '
            'repetitions the %s does not follow its law (%s test, p = %.2g)'
            % (self.describe(plan), plan['big'], which, test, p))

    def describe(self, plan):
        return ' '.join('%s=%r' % (k, v) for k, v in sorted(plan.items())
            if k not in ('cols', 'seed', 'big', 'n', 'g')) + ' table %r' % (
            [(c['id'], c['cctype'], world.data_of(c)) for c in plan['cols']],)

    def experiment(self, one, plan, n, stage, ctx):
        V = np.random.RandomState(plan['g'] * 7 + stage)
        code = np.random.RandomState(plan['g'] * 11 + stage)
        out = {}
        for _ in range(n):
            U = one(V, code)
            if U is None:
                continue
            for k, u in U.items():
                if u is None:
                    ctx.check(False, 'outside', lambda: '%s: the %s left the '
                        'support of its law' % (self.describe(plan), k))
                out.setdefault(k, []).append(u)
        if self.cdf is not None:
            out = {k: list(self.cdf(np.array(u))) for k, u in out.items()}
        least = min(len(u) for u in out.values())
        return pred.test_uniform({k: np.array(u[:least])
            for k, u in out.items()})

    # -- Pieces ------------------------------------------------------------
    def hypers(self, T, rng):
        """Fixed hyperparameters: any values."""
        h = {}
        for c in T.cols:
            t = T.type[c][0]
            x = lambda *a: rng.choice(a)
            h[c] = {
                'bernoulli': lambda: dict(alpha=x(.2, 1., 2.),
                    beta=x(.2, 1., 3.)),
                'categorical': lambda: dict(alpha=x(.2, 1., 3.)),
                'poisson': lambda: dict(a=x(1., 2.), b=x(.5, 2.)),
                'geometric': lambda: dict(a=x(1., 2.5), b=x(.5, 1.5)),
                'exponential': lambda: dict(a=x(.7, 2.), b=x(.5, 2.)),
                'normal': lambda: dict(m=x(0., 2.), r=x(.3, 1.), s=x(.5, 4.),
                    nu=x(1., 3.)),
                'lognormal': lambda: dict(m=x(0., 1.), r=x(.3, 1.),
                    s=x(.5, 4.), nu=x(1., 3.)),
                'vonmises': lambda: dict(a=x(.5, 2.), b=x(1., 4.),
                    k=x(.7, 3.))}[t]()
        return h

    def grids(self, T):
        """(column CRP grid, row CRP grid, hyper grids by column)."""
        st = state(T, {c: 0 for c in T.cols}, {0: [0] * T.n}, None, None,
            None, np.random.RandomState(1))
        f = lambda g: [float(x) for x in g]
        return f(st.crp.hyper_grids['alpha']), \
            f(st.views[0].crp.hyper_grids['alpha']), \
            {c: {h: f(g) for h, g in st.dim_for(c).hyper_grids.items()}
                for c in T.cols}

    def structures(self, T, ok, w_cols, w_view):
        """Every (Zv, {block: Zr}) with its log weight."""
        rows = partitions(T.n)
        vals, lw = [], []
        memo = {}

        def view(cs):
            if cs not in memo:
                memo[cs] = [(z, w_view(cs, z)) for z in rows]
            return memo[cs]
        for zv in partitions(len(T.cols)):
            if not ok(zv):
                continue
            blocks = [tuple(c for c, v in zip(T.cols, zv) if v == b)
                for b in range(max(zv) + 1)]
            base = w_cols(zv)
            for combo in itertools.product(*[view(cs) for cs in blocks]):
                vals.append((zv, tuple(z for z, _l in combo)))
                lw.append(base + sum(l for _z, l in combo))
        return vals, lw

    def labels(self, z, rng_bits):
        """Names of clusters: dense, sparse or reversed."""
        k = max(z) + 1 if z else 0
        f = [lambda i: i, lambda i: 3 * i, lambda i: k - 1 - i][rng_bits % 3]
        return [f(i) for i in z]

    def place(self, T, zv, zrs, alpha, alphas, hypers, code, bits, **kw):
        lv = self.labels(list(zv), bits)
        Zv = {c: v for c, v in zip(T.cols, lv)}
        name = {b: lv[zv.index(b)] for b in set(zv)}
        Zrv = {name[b]: self.labels(list(zrs[b]), bits // 3)
            for b in set(zv)}
        return state(T, Zv, Zrv, alpha, {name[b]: alphas[b]
            for b in set(zv)} if alphas else None, hypers, code, **kw)

    def read(self, T, st):
        Zv = st.Zv()
        zv = canon(Zv, T.cols)
        zrs = []
        for b in range(max(zv) + 1):
            v = Zv[T.cols[zv.index(b)]]
            zrs.append(canon(st.views[v].Zr(), range(T.n)))
        return zv, tuple(zrs)

    def subset(self, plan, st, T, rng):
        """Restrictions for State.transition."""
        kw = {}
        if plan.get('some') == 'cols':
            kw['cols'] = rng.sample(T.cols, rng.randint(1, len(T.cols)))
        if plan.get('some') == 'rowids':
            kw['rowids'] = rng.sample(range(T.n), rng.randint(1, T.n))
        if plan.get('some') == 'views':
            vs = sorted(st.views)
            kw['views'] = rng.sample(vs, rng.randint(1, len(vs)))
        return kw

    # -- Kernels -----------------------------------------------------------
    def kind_sweep(self, plan, ctx):
        """Any schedule of kernels, everything random but the table."""
        T, rng = Tiny(plan), self.rng
        G, Gr, H = self.grids(T)
        # Bernoulli columns: all pairs of their hyperparameters.
        hs = {}
        for c in T.cols:
            names = sorted(H[c])
            pts = list(itertools.product(*[H[c][h] for h in names]))
            hs[c] = [dict(zip(names, p)) for p in pts]
        ml = {}

        def margs(c, z):
            if (c, z) not in ml:
                ml[c, z] = np.array([T.marg(c, z, h) for h in hs[c]])
            return ml[c, z]
        crp_v = lambda z, G: np.array([ref.crp(counts(z), a) for a in G])
        vals, lw = self.structures(T, lambda zv: True,
            lambda zv: lmean(crp_v(zv, G)),
            lambda cs, z: lmean(crp_v(z, Gr)) + sum(lmean(margs(c, z))
                for c in cs))
        law = Law(vals, lw, rng)
        memo = {}

        def cond(what, *a):
            if (what,) + a not in memo:
                if what == 'alpha':
                    l = Grid(G, crp_v(a[0], G))
                elif what == 'view':
                    l = Grid(Gr, crp_v(a[0], Gr))
                else:
                    l = Law(range(len(hs[a[0]])), margs(a[0], a[1]))
                memo[(what,) + a] = l
            return memo[(what,) + a]
        names = {c: sorted(H[c]) for c in T.cols}
        kernels = plan['kernels']
        # Columns move by Gibbs within rows of one: nothing to do there.
        if kernels and 'columns' in kernels and T.n < 1:
            return None

        def one(V, code):
            zv, zrs = law.draw(V)
            alpha = cond('alpha', zv).draw(V)
            alphas = [cond('view', z).draw(V) for z in zrs]
            hypers = {c: hs[c][cond('hyper', c, zrs[b]).draw(V)]
                for c, b in zip(T.cols, zv)}
            bits = int(V.randint(9))
            st = self.place(T, zv, zrs, alpha, alphas, hypers, code, bits)
            if plan.get('restore'):
                st = type(st).from_metadata(world.json_trip(
                    st.to_metadata()), rng=code)
            for _ in range(plan['reps']):
                # View names are only good for one sweep.
                r = random.Random(int(V.randint(10**6)))
                kw = self.subset(plan, st, T, r)
                if 'views' in kw and (kernels is None
                        or 'columns' in kernels):
                    kw = {}
                st.transition(N=1, kernels=kernels and list(kernels),
                    progress=False, **kw)
            zv, zrs = s = self.read(T, st)
            U = {'structure': law.u(s, V)}
            U['alpha'] = cond('alpha', zv).u(st.alpha(), V)
            c = T.cols[0]
            view = st.view_for(c)
            U['view alpha'] = cond('view', zrs[0]).u(view.alpha(), V)
            self.apart(U, T, st, s, c, lambda z: cond('view', z), V)
            h = st.dim_for(c).hypers
            i = nearest([[g[k] for k in names[c]] for g in hs[c]],
                [float(h[k]) for k in names[c]])
            U['hypers'] = None if i is None \
                else hyper_u(cond('hyper', c, zrs[0]), i, hs[c], V)
            if len(T.cols) > 1 and i is not None:
                d, b = list(zip(T.cols, zv))[1 + int(V.randint(
                    len(T.cols) - 1))]
                h = st.dim_for(d).hypers
                i = nearest([[g[k] for k in names[d]] for g in hs[d]],
                    [float(h[k]) for k in names[d]])
                U['hypers of two columns'] = None if i is None else (
                    U['hypers'] - hyper_u(cond('hyper', d, zrs[b]), i, hs[d],
                        V)) % 1.
            return U
        return one

    def kind_columns(self, plan, ctx):
        T, rng = Tiny(plan), self.rng
        _G, Gr, _H = self.grids(T)
        hypers = self.hypers(T, rng)
        alpha = rng.choice([.3, 1., 2.5])
        Ci = plan.get('Ci')
        crp_r = lambda z: np.array([ref.crp(counts(z), a) for a in Gr])
        ok = lambda zv: not any(zv[a] == zv[b] for a, b in Ci or ())
        vals, lw = self.structures(T, ok,
            lambda zv: ref.crp(counts(zv), alpha),
            lambda cs, z: lmean(crp_r(z)) + sum(T.marg(c, z, hypers[c])
                for c in cs))
        if len(vals) > 4000:
            return None
        law = Law(vals, lw, rng)
        memo = {}

        def view(z):
            if z not in memo:
                memo[z] = Grid(Gr, crp_r(z))
            return memo[z]
        kw = dict(Ci=[list(p) for p in Ci]) if Ci else {}

        def one(V, code):
            zv, zrs = law.draw(V)
            st = self.place(T, zv, zrs, alpha, [view(z).draw(V) for z in zrs],
                hypers, code, int(V.randint(9)), **kw)
            for _ in range(plan['reps']):
                r = random.Random(int(V.randint(10**6)))
                cols = self.subset(plan, st, T, r).get('cols')
                if plan['m'] == 1 and V.rand() < .5:
                    st.transition(N=1, kernels=['columns'], cols=cols,
                        progress=False)
                else:
                    st.transition_dims(cols=cols, m=plan['m'])
            s = self.read(T, st)
            c = T.cols[-1]
            b = s[0][-1]
            U = {'structure': law.u(s, V), 'view alpha': view(
                s[1][b]).u(st.view_for(c).alpha(), V)}
            self.apart(U, T, st, s, c, view, V)
            return U
        return one

    def apart(self, U, T, st, s, c, view, V):
        """The concentration of another block is another draw."""
        own, u = st.view_for(c), U['view alpha']
        rest = [(d, b) for d, b in zip(T.cols, s[0])
            if st.view_for(d) is not own]
        if u is None or not rest:
            return
        d, b = rest[int(V.randint(len(rest)))]
        x = view(s[1][b]).u(st.view_for(d).alpha(), V)
        U['two view alphas'] = None if x is None else (u - x) % 1.

    def row_law(self, T, cs, hypers, alpha, rng, n=None):
        rows = partitions(T.n if n is None else n)
        return Law(rows, [ref.crp(counts(z), alpha) + sum(T.marg(c, z,
            hypers[c]) for c in cs) for z in rows], rng)

    def setup_rows(self, plan):
        T, rng = Tiny(plan), self.rng
        hypers = self.hypers(T, rng)
        zv = rng.choice(partitions(len(T.cols)))
        alphas = [rng.choice([.3, 1., 2.5]) for _ in range(max(zv) + 1)]
        blocks = [[c for c, v in zip(T.cols, zv) if v == b]
            for b in range(max(zv) + 1)]
        return T, rng, hypers, zv, alphas, blocks

    def kind_rows(self, plan, ctx):
        T, rng, hypers, zv, alphas, blocks = self.setup_rows(plan)
        laws = [self.row_law(T, cs, hypers, a, rng)
            for cs, a in zip(blocks, alphas)]

        def one(V, code):
            zrs = [l.draw(V) for l in laws]
            st = self.place(T, zv, zrs, 1., alphas, hypers, code,
                int(V.randint(9)))
            for _ in range(plan['reps']):
                r = random.Random(int(V.randint(10**6)))
                kw = self.subset(plan, st, T, r)
                if V.rand() < .5:
                    st.transition(N=1, kernels=['rows'], progress=False, **kw)
                else:
                    if 'rowids' in kw:
                        kw['rows'] = kw.pop('rowids')
                    st.transition_view_rows(**kw)
            _zv, zrs = self.read(T, st)
            return {'rows of block %d' % b: l.u(z, V)
                for b, (l, z) in enumerate(zip(laws, zrs))}
        return one

    def kind_incorporate(self, plan, ctx):
        """A row observed later is placed as the posterior has it, given the
        places of the rows before it."""
        T, rng, hypers, zv, alphas, blocks = self.setup_rows(plan)
        n = T.n
        last = {c: T.data[c][-1] for c in T.cols}
        short = dict(plan, cols=[dict(c, u=c['u'][:-1])
            for c in plan['cols']])
        S = Tiny(short)
        part = [self.row_law(S, cs, hypers, a, rng)
            for cs, a in zip(blocks, alphas)]
        # The earlier rows stay where they are: their law is that without
        # the new row, whose place follows from all that is observed.
        full = [self.after(l, self.row_law(T, cs, hypers, a, rng), rng)
            for l, cs, a in zip(part, blocks, alphas)]
        if all(world.isnan(x) for x in last.values()):
            return None
        given = {c: x for c, x in last.items() if not world.isnan(x)}

        def one(V, code):
            zrs = [l.draw(V) for l in part]
            st = self.place(S, zv, zrs, 1., alphas, hypers, code,
                int(V.randint(9)))
            st.incorporate(n - 1, dict(given))
            _zv, zrs = self.read(T, st)
            return {'rows of block %d' % b: l.u(z, V)
                for b, (l, z) in enumerate(zip(full, zrs))}
        return one

    def after(self, part, full, rng):
        total = {}
        for z in full.values:
            total[z[:-1]] = total.get(z[:-1], 0.) + full.p[full.index[z]]
        with np.errstate(divide='ignore'):
            return Law(full.values, [np.log(part.p[part.index[z[:-1]]]
                * full.p[full.index[z]] / total[z[:-1]])
                for z in full.values], rng)

    def kind_view(self, plan, ctx):
        """View.transition: rows, concentration and hyperparameters."""
        T, rng = Tiny(plan), self.rng
        _G, Gr, H = self.grids(T)
        c = T.cols[0]
        T.cols = T.cols[:1]
        names = sorted(H[c])
        hs = [dict(zip(names, p)) for p in itertools.product(
            *[H[c][h] for h in names])]
        rows = partitions(T.n)
        crp_r = {z: np.array([ref.crp(counts(z), a) for a in Gr])
            for z in rows}
        ml = {z: np.array([T.marg(c, z, h) for h in hs]) for z in rows}
        law = Law(rows, [lmean(crp_r[z]) + lmean(ml[z]) for z in rows], rng)
        la = {z: Grid(Gr, crp_r[z]) for z in rows}
        lh = {z: Law(range(len(hs)), ml[z]) for z in rows}

        def one(V, code):
            z = law.draw(V)
            st = self.place(T, (0,), [z], 1., [la[z].draw(V)],
                {c: hs[lh[z].draw(V)]}, code, int(V.randint(9)))
            view = st.views[st.Zv(c)]
            how = V.randint(3)
            if how == 0:
                view.transition(plan['reps'])
            elif how == 1:
                view.transition_rows()
                view.transition_crp_alpha()
            else:
                view.transition_dim_hypers()
                view.transition_rows(rows=[int(V.randint(T.n))])
            z = canon(view.Zr(), range(T.n))
            h = view.dims[c].hypers
            i = nearest([[g[k] for k in names] for g in hs],
                [float(h[k]) for k in names])
            return {'rows': law.u(z, V), 'alpha': la[z].u(view.alpha(), V),
                'hypers': None if i is None else hyper_u(lh[z], i, hs, V)}
        return one

    def kind_hypers(self, plan, ctx):
        T, rng = Tiny(plan), self.rng
        _G, _Gr, H = self.grids(T)
        c = T.cols[0]
        z = rng.choice(partitions(T.n))
        fixed = self.hypers(T, rng)
        names = sorted(H[c])
        free = rng.sample(names, min(2, len(names)))
        grid = {h: (H[c][h] if h in free else [fixed[c][h]]) for h in names}
        pts = [dict(zip(names, p)) for p in itertools.product(
            *[grid[h] for h in names])]
        try:
            lw = [T.marg(c, z, h) for h in pts]
        except (ValueError, OverflowError, ZeroDivisionError):
            return None
        if not np.isfinite(lw).all():
            return None
        law = Law(range(len(pts)), lw)
        order = rng.sample(names, len(names))

        def one(V, code):
            h = pts[law.draw(V)]
            st = self.place(T, (0,), [z], 1., [1.], {c: h}, code,
                int(V.randint(9)))
            dim = st.dim_for(c)
            for k in names:
                if k not in free:
                    dim.hyper_grids[k] = [fixed[c][k]]
            for _ in range(plan['reps']):
                if V.rand() < .5:
                    st.transition_dim_hypers(cols=[c])
                else:
                    st.transition(N=1, kernels=['column_hypers'],
                        progress=False)
            h = st.dim_for(c).hypers
            i = nearest([[g[k] for k in names] for g in pts],
                [float(h[k]) for k in names])
            if i is None:
                return {'hypers': None}
            return {'hypers': hyper_u(law, i, pts, V, order)}
        return one

    # -- Priors ------------------------------------------------------------
    def column_prior(self, n, alpha, Cd, Ci):
        """Law of the column partition of a fresh model."""
        Cd = [list(b) for b in Cd or []]
        if not Ci:
            # A block of dependent columns is one customer.
            units = Cd + [[c] for c in range(n)
                if not any(c in b for b in Cd)]
            out = {}
            for z in partitions(len(units)):
                Z = {c: k for u, k in zip(units, z) for c in u}
                out[canon(Z, range(n))] = ref.crp(counts(z), alpha)
            return out
        # Seated in order with their friends; a table's weight is its number
        # of columns, or nothing when it holds an enemy.
        enemies = set(map(tuple, Ci)) | set(tuple(p[::-1]) for p in Ci)
        friends = {c: b for b in Cd for c in b}
        out = {}

        def seat(c, Z, lp):
            while c in Z:
                c += 1
            if c == n:
                key = canon(Z, range(n))
                out[key] = np.logaddexp(out.get(key, -np.inf), lp)
                return
            group = friends.get(c, [c])
            ks = sorted(set(Z.values()))
            w = {}
            for k in ks:
                here = [d for d in Z if Z[d] == k]
                if not any((f, d) in enemies for f in group for d in here):
                    w[k] = float(len(here))
            w[len(ks)] = alpha
            tot = sum(w.values())
            for k, x in w.items():
                seat(c, {**Z,
                    **{f: k for f in group}}, lp + math.log(x / tot))
        seat(0, {}, 0.)
        return out

    def kind_init(self, plan, ctx):
        T, rng = Tiny(plan), self.rng
        G, Gr, H = self.grids(T)
        given = plan.get('given')
        alpha0 = rng.choice([.3, 1., 2.5]) if given else None
        Cd, Ci = plan.get('Cd'), plan.get('Ci')
        cols_law = {}

        def law(alpha):
            if alpha not in cols_law:
                p = self.column_prior(len(T.cols), alpha, Cd, Ci)
                ks = sorted(p)
                cols_law[alpha] = Law(ks, [p[k] for k in ks])
            return cols_law[alpha]
        uniform = Grid(G, [0.] * len(G))
        row_u = Grid(Gr, [0.] * len(Gr))
        rows, memo = partitions(T.n), {}

        def row_law(a):
            if a not in memo:
                memo[a] = Law(rows, [ref.crp(counts(z), a) for z in rows])
            return memo[a]
        kw = {}
        if Cd:
            kw['Cd'] = [list(b) for b in Cd]
        if Ci:
            kw['Ci'] = [tuple(p) for p in Ci]
        hu = {(c, h): Grid(g, [0.] * len(g)) for c in T.cols
            for h, g in H[c].items()}

        def one(V, code):
            st = state(T, None, None, alpha0, None, None, code, **kw)
            a = float(st.alpha())
            U = {}
            if given:
                if a != alpha0:
                    return {'alpha': None}
            else:
                U['alpha'] = uniform.u(a, V)
            zv, zrs = self.read(T, st)
            U['columns'] = law(a).u(zv, V)
            view = st.view_for(T.cols[0])
            va = float(view.alpha())
            U['view alpha'] = row_u.u(va, V)
            U['rows'] = row_law(va).u(zrs[0], V)
            last = st.view_for(T.cols[-1])
            c = T.cols[-1]
            for h in sorted(H[c]):
                U['hyper ' + h] = hu[c, h].u(st.dim_for(c).hypers[h], V)
            return U
        return one

    # -- Component parameters ------------------------------------------------
    def kind_params(self, plan, ctx):
        rng = self.rng
        m, n = plan['model'], plan['rows']
        K = 500
        w = (np.arange(K) + .5) / K
        if m == 'beta':
            from cgpm.primitives.beta import Beta as cls
            xs = [min(max(rng.betavariate(rng.choice([.7, 2.]),
                rng.choice([.7, 3.])), .01), .99) for _ in range(n)]
            d, names = None, ['strength', 'balance']
            A = stats.expon(scale=5.)
            B = stats.uniform(0, 1)
            a, b = np.meshgrid(A.ppf(w), B.ppf(w), indexing='ij')
            lw = np.zeros(a.shape)
            for x in xs:
                lw = lw + stats.beta.logpdf(x, a * b, a * (1 - b))
        else:
            from cgpm.primitives.normal_trunc import NormalTrunc as cls
            l = rng.choice([-3., 0.5, 2.])
            h = l + rng.choice([.5, 2., 6.])
            xs = [l + (h - l) * (.02 + .96 * rng.random()) for _ in range(n)]
            d, names = dict(l=l, h=h), ['sigma', 'mu']
            A = stats.gamma(2., scale=2.)
            B = stats.uniform(l, h - l)
            a, b = np.meshgrid(A.ppf(w), B.ppf(w), indexing='ij')
            lw = np.zeros(a.shape)
            for x in xs:
                lw = lw + stats.truncnorm.logpdf(x, (l - b) / a, (h - b) / a,
                    loc=b, scale=a)
        lw[~np.isfinite(lw)] = -np.inf
        p = np.exp(lw - lw.max())
        p /= p.sum()
        # Too concentrated for the resolution of the table.
        if p.max() > .002:
            return None
        row = p.sum(axis=1)
        cum = np.concatenate([[0.], np.cumsum(row)])
        inner = np.concatenate([np.zeros((K, 1)), np.cumsum(p, axis=1)],
            axis=1) / row[:, None]

        def one(V, code):
            u, v = V.rand(2)
            i = min(int(np.searchsorted(cum, u, side='right')) - 1, K - 1)
            j = min(int(np.searchsorted(inner[i], v, side='right')) - 1,
                K - 1)
            s = float(A.ppf((i + V.rand()) / K))
            t = float(B.ppf((j + V.rand()) / K))
            if s < 1e-6 or t == 0.:
                return None
            g = cls([0], [], distargs=d, params=dict(zip(names, (s, t))),
                rng=code)
            for r, x in enumerate(xs):
                g.incorporate(r, {0: x})
            for _ in range(plan['reps']):
                g.transition_params()
            q = g.get_params()
            s, t = float(q[names[0]]), float(q[names[1]])
            x = A.cdf(s) * K
            i = min(int(x), K - 1)
            y = B.cdf(t) * K
            j = min(int(y), K - 1)
            return {names[0]: cum[i] + (x - i) * row[i],
                names[1]: inner[i, j] + (y - j) * (
                    inner[i, j + 1] - inner[i, j])}
        return one

    # -- Samplers -------------------------------------------------------------
    def kind_samplers(self, plan, ctx):
        from cgpm.utils import sampling as su
        rng = self.rng
        inf = float('inf')
        t = plan['target']
        # The code's density: unnormalized, in plain arithmetic.
        if t == 'expon':
            q = rng.choice([.3, 1., 5.])
            L, D = stats.expon(scale=q), (0, inf)
            f = lambda x: -x / q
        elif t == 'gamma':
            q = rng.choice([1.5, 4.])
            L, D = stats.gamma(q), (0, inf)
            f = lambda x: (q - 1) * math.log(x) - x if x > 0 else -inf
        elif t == 'beta':
            q, w = rng.choice([1., 2.]), rng.choice([1., 3.])
            L, D = stats.beta(q, w), (0, 1)
            f = lambda x: (q - 1) * math.log(x) + (w - 1) * math.log(1 - x) \
                if 0 < x < 1 else -inf
        elif t == 'uniform':
            lo, w = rng.choice([(0, 1), (2., 3.), (-1., .5)])
            L, D = stats.uniform(lo, w), (lo, lo + w)
            f = lambda x: 1.5 if lo <= x <= lo + w else -inf
        elif t == 'truncated':
            L, D = stats.truncnorm(-1., 2., loc=0., scale=1.), (-1., 2.)
            f = lambda x: -x * x / 2 if -1 <= x <= 2 else -inf
        elif t == 'normal':
            m, sd = rng.choice([-2., 3.]), rng.choice([.5, 2.])
            L, D = stats.norm(m, sd), (-inf, inf)
            f = lambda x: -(x - m) ** 2 / (2 * sd * sd) - 3.
        else:
            class Mixture(object):
                a, b = stats.norm(-1, .5), stats.norm(1.5, 1.)

                def cdf(self, x):
                    return .4 * self.a.cdf(x) + .6 * self.b.cdf(x)
            L, D = Mixture(), (-inf, inf)
            f = lambda x: math.log(.8 * math.exp(-2 * (x + 1) ** 2)
                + .6 * math.exp(-(x - 1.5) ** 2 / 2) + 1e-300)

        pool = []

        def start(V):
            if not pool:
                u = V.rand(500)
                pool.extend(np.where(V.rand(500) < .4, L.a.ppf(u),
                    L.b.ppf(u)) if t == 'mixture' else L.ppf(u))
            return float(pool.pop())
        take, lag, burn = plan['take'], plan['lag'], plan['burn']
        which = plan['sampler']
        if which == 'reject':
            if not (np.isfinite(D[0]) and np.isfinite(D[1])):
                return None
            top = max(math.exp(f(x)) for x in np.linspace(D[0], D[1],
                2001)) * 1.1

        def one(V, code):
            x = start(V)
            if not D[0] < x < D[1]:
                return None
            if which == 'mh':
                s = su.mh_sample(x, f, plan['jump'], list(D),
                    num_samples=take, burn=burn, lag=lag, rng=code)
            elif which == 'slice':
                s = su.slice_sample(lambda: x, f, list(D), num_samples=take,
                    burn=burn % 10, lag=lag, w=plan['jump'], rng=code)
            else:
                s = su.rejection_sample(lambda x: math.exp(f(x)),
                    lambda x: top, lambda: code.uniform(D[0], D[1]), N=take,
                    rng=code)
            if take == 1:
                s = [s]
            ctx.check(len(s) == take, 'count', lambda: '%d samples, %d asked'
                % (len(s), take))
            # Samples of one chain depend on each other: judged apart.
            return {'sample': float(s[plan['g'] % take])}
        self.cdf = L.cdf
        return one


def nearest(points, x):
    for i, p in enumerate(points):
        if all(abs(a - b) <= 1e-9 * (1 + abs(a)) for a, b in zip(p, x)):
            return i
    return None


def hyper_u(law, i, pts, V, order=None):
    """Uniform number of point i, along the first (or given) coordinate."""
    if order is None:
        order = sorted(pts[0])
    key = lambda j: tuple(pts[j][h] for h in order)
    memo = law.__dict__.setdefault('memo_' + '-'.join(order), {})
    if not memo:
        same = {}
        for j in range(len(pts)):
            same.setdefault(key(j), []).append(j)
        acc = 0.
        for k in sorted(same):
            p = sum(law.p[law.index[j]] for j in same[k])
            memo[k] = (acc, p)
            acc += p
    lo, p = memo[key(i)]
    return lo + V.rand() * p


PROP = P22()
