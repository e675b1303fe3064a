"""P13: simulation and density agree and obey the rules of probability."""

import random

import numpy as np

from .. import core, pred, ref, world
from .hist import HistoryProp

P_MIN = 1e-10
TOL = dict(rtol=1e-5, atol=1e-4)


class P13(HistoryProp):
    id = 'P13'
    runs = {'quick': 2500, 'thorough': 120000}
    wall = {'quick': 45., 'thorough': 780.}
    weights = dict(world.DEFAULT_WEIGHTS, kernel=4, relevance=0)
    n_ops = (0, 8)
    assumptions = ['predictive distributions are evaluated in closed form '
        'from the table, the partitions and the hyperparameters (parameters '
        'for beta, normal_trunc and random_forest)',
        'conditional columns are queried with their inputs among the targets '
        'or the evidence',
        'draws are judged by the Rosenblatt transform at p < 1e-10 per test']

    def gen(self, rng, tier):
        plan = HistoryProp.gen(self, rng, tier)
        plan['qseed'] = rng.randint(1, 10**9)
        if rng.random() < .2:
            t = rng.choice(world.CONDITIONAL)
            op = world.gen_op(rng, 'cctype')
            op.update(cctype=t, distargs=world.gen_distargs(rng, t))
            plan['ops'].insert(rng.randint(0, len(plan['ops'])), op)
            if rng.random() < .5:
                plan['init']['missing'] = .3
        plan['sim'] = rng.randint(1, 10**9)
        plan['n'] = rng.choice([200, 400] if tier == 'quick'
            else [200, 400, 1500])
        plan['form'] = rng.choice(['many', 'many', 'single', 'few', 'bulk',
            'view', 'view'])
        return plan

    def begin(self, w, plan):
        w.qrng = random.Random(plan['qseed'])

    # ----------------------------------------------------------------------
    def query(self, w, rng, most=3):
        """(row, targets, constraints) with exact densities."""
        cols = w.cols()
        T = rng.sample(cols, rng.randint(1, min(most, len(cols))))
        rest = [c for c in cols if c not in T]
        C = rng.sample(rest, rng.randint(0, min(2, len(rest)))) \
            if rng.random() < .6 else []
        for c in list(C):
            C += [i for i in w.dim_inputs_of(c) if i not in C]
        T = [c for c in T if c not in C]
        for c in list(T):
            for i in w.dim_inputs_of(c):
                if i not in C and i not in T:
                    (C if rng.random() < .5 else T).append(i)
        # An input joining the evidence is never conditional itself.
        return T, C

    def values(self, w, rng, cols):
        return {c: world.cell(w.types[c][0], w.types[c][1],
            rng.randint(0, 999) / 1000.) for c in cols}

    def shuffled(self, rng, d):
        ks = list(d)
        rng.shuffle(ks)
        return {k: d[k] for k in ks}

    def after(self, w, op, before, result=None):
        st, ctx, rng = w.state, w.ctx, w.qrng
        chk = ctx.check
        m = ref.Model(st, w.table, w.types)
        P = pred.Pred(m)
        for _ in range(2):
            T, C = self.query(w, rng)
            if not T:
                continue
            tv, cv = self.values(w, rng, T), self.values(w, rng, C)
            row = rng.choice([-1, w.n_rows(), w.n_rows() + 3])
            got = st.logpdf(row, dict(tv), dict(cv))
            want = float(P.walk({c: [x] for c, x in tv.items()}, cv)[0][0])
            chk(core.close(got, want, **TOL), 'density', lambda: 'logpdf(%r, '
                '%r, %r) is %r, %r in closed form' % (row, tv, cv, got, want))
            # Naming order, single and bulk.
            again = st.logpdf(row, self.shuffled(rng, tv),
                self.shuffled(rng, cv))
            chk(core.close(got, again, 1e-9, 1e-9), 'order', lambda: 'logpdf '
                'of %r given %r is %r and %r in another naming order' % (
                    tv, cv, got, again))
            # A bulk query among others on the same row and columns.
            tv2, cv2 = self.values(w, rng, T), self.values(w, rng, C)
            qs = [(-1, tv, cv), (row, tv, cv2), (row, tv2, cv),
                (row, tv, cv), (w.n_rows() + 2, tv, cv), (row, tv2, cv2)]
            if not any(w.dim_inputs_of(c) for c in T):
                qs.append((row, tv, {}))
            rng.shuffle(qs)
            bulk = st.logpdf_bulk([q[0] for q in qs],
                [dict(q[1]) for q in qs], [dict(q[2]) for q in qs])
            alone = [st.logpdf(q[0], dict(q[1]), dict(q[2])) for q in qs]
            chk(len(bulk) == len(qs) and all(core.close(b, a, 1e-9, 1e-9)
                for b, a in zip(bulk, alone)), 'bulk', lambda: 'logpdf_bulk '
                    'gives %r, logpdf %r on %r' % (bulk, alone, qs))
            # Chain rule over a split of the targets.
            A = rng.sample(T, rng.randint(1, len(T)))
            # The first part needs its inputs.
            while True:
                more = [i for c in A for i in w.dim_inputs_of(c)
                    if i in T and i not in A]
                if not more:
                    break
                A += more[:1]
            B = [c for c in T if c not in A]
            if B:
                first = st.logpdf(-1, {c: tv[c] for c in A}, dict(cv))
                second = st.logpdf(-1, {c: tv[c] for c in B},
                    {**cv, **{c: tv[c] for c in A}})
                chk(core.close(first + second, got, **TOL), 'chain-rule',
                    lambda: 'log p(%r|%r) = %r but the parts give %r + %r' % (
                        tv, cv, got, first, second))
        self.normalized(w, rng)
        for _ in range(3 if st.is_composite() else 1):
            self.observed(w, rng, P)
        self.rejected(w, rng)

    def normalized(self, w, rng):
        """Densities of a finite column sum to one under any evidence; a
        joint density sums to its marginal."""
        st = w.state
        fin = [c for c in w.cols() if w.types[c][0] in world.FINITE]
        if not fin:
            return
        c = rng.choice(fin)
        K = 2 if w.types[c][0] == 'bernoulli' else int(w.types[c][1]['k'])
        T, C = self.query(w, rng, 2)
        T = [x for x in T if x != c]
        C = [x for x in C if x != c]
        for x in C + T:
            if any(i == c for i in w.dim_inputs_of(x)):
                return
        for x in C:
            if any(i not in C for i in w.dim_inputs_of(x)):
                return
        tv, cv = self.values(w, rng, T), self.values(w, rng, C)
        tot = np.logaddexp.reduce([st.logpdf(-1, {**tv, c: float(j)},
            dict(cv)) for j in range(K)])
        want = st.logpdf(-1, dict(tv), dict(cv)) if tv else 0.
        w.ctx.check(core.close(tot, want, **TOL), 'marginalize', lambda:
            'summing out column %r of %r given %r gives %r, not %r' % (
                c, tv, cv, tot, want))

    def observed(self, w, rng, P):
        """Missing cells of an observed row follow its cluster."""
        st = w.state
        miss = {}
        for c in w.cols():
            for r in range(w.n_rows()):
                if world.isnan(w.table[c][r]):
                    miss.setdefault(r, []).append(c)
        if not miss:
            return
        r = rng.choice(sorted(miss))
        # Inputs must be present; columns that read a missing cell are not
        # determined without sampling it.
        T = [c for c in miss[r] if not any(i in miss[r]
            for i in w.dim_inputs_of(c))]
        read = set(i for c in w.cols() for i in w.dim_inputs_of(c))
        T = [c for c in T if c not in read]
        if not T or any(i in miss[r] and not world.isnan(w.table[c][r])
                for c in w.cols() for i in w.dim_inputs_of(c)):
            return
        cond = [c for c in T if w.dim_inputs_of(c)]
        T = rng.sample(T, rng.randint(1, min(3, len(T))))
        if cond and not set(T) & set(cond):
            T[0] = rng.choice(cond)
        tv = self.values(w, rng, T)
        known = [c for c in w.cols() if not world.isnan(w.table[c][r])]
        cv = {c: w.table[c][r] for c in rng.sample(known,
            rng.randint(0, len(known)))} if rng.random() < .5 else {}
        if rng.random() < .4:
            # Asked of the block itself.
            v = st.Zv(rng.choice([c for c in T if c in cond] or T))
            if any(w.dim_inputs_of(c) for c in T if st.Zv(c) == v):
                w.ctx.probe('row-of-conditional-view')
            T = [c for c in T if st.Zv(c) == v]
            tv = {c: tv[c] for c in T}
            cv = {c: x for c, x in cv.items() if st.Zv(c) == v}
            got = st.views[v].logpdf(r, dict(tv), dict(cv))
            w.ctx.probe('row-of-view')
        else:
            got = st.logpdf(r, dict(tv), dict(cv))
        want = float(P.walk({c: [x] for c, x in tv.items()}, {}, row=r)[0][0])
        w.ctx.check(core.close(got, want, **TOL), 'density-row', lambda:
            'logpdf(%r, %r, %r) is %r, %r in closed form' % (
                r, tv, cv, got, want))

    def rejected(self, w, rng):
        st, ctx = w.state, w.ctx

        def rejects(name, f, *a):
            try:
                r = f(*a)
            except (ValueError, AssertionError):
                return
            ctx.check(False, 'accepted', lambda: '%s accepted: %r -> %.100r'
                % (name, a, r))
        cols = w.cols()
        c = rng.choice(cols)
        v = self.values(w, rng, cols)
        rejects('overlap', st.logpdf, -1, {c: v[c]}, {c: v[c]})
        rejects('overlap', st.simulate, -1, [c], {c: v[c]})
        rejects('repeated target', st.simulate, -1, [c, c])
        obs = [r for r in range(w.n_rows()) if not world.isnan(w.table[c][r])]
        r = rng.choice(obs)
        rejects('density of an observed cell', st.logpdf, r, {c: v[c]})
        other = [d for d in cols if d != c and world.isnan(w.table[d][r])]
        if other:
            d = rng.choice(other)
            rejects('density of an observed and a missing cell', st.logpdf, r,
                {c: v[c], d: v[d]})
        if other and abs(v[c] - w.table[c][r]) > .01:
            d = rng.choice(other)
            rejects('contradicting evidence', st.logpdf, r, {d: v[d]},
                {c: v[c]})
            rejects('contradicting evidence', st.simulate, r, [d], {c: v[c]})

    # ----------------------------------------------------------------------
    def end(self, w, plan):
        st, ctx = w.state, w.ctx
        rng = random.Random(plan['sim'])
        n, form = plan['n'], plan['form']
        composite = st.is_composite()
        if composite:
            n = min(n, 200)
        P = pred.Pred(ref.Model(st, w.table, w.types))
        T, C = self.query(w, rng)
        if not T:
            return
        cv = self.values(w, rng, C)
        row, prow = rng.choice([-1, w.n_rows(), w.n_rows() + 3]), None
        z, zgiven = {}, {}
        st.rng.seed(plan['sim'] % 10**6)
        if form == 'view':
            v = rng.choice(sorted(set(st.Zv(c) for c in T)))
            view = st.views[v]
            T = [c for c in T if st.Zv(c) == v]
            cv = {c: x for c, x in cv.items() if st.Zv(c) == v}
            crp = view.outputs[0]
            how = rng.choice(['none', 'target', 'evidence'])
            K, _n = P.tables(v)
            names = list(T)
            given = dict(cv)
            if how == 'target':
                names.insert(rng.randint(0, len(names)), crp)
            elif how == 'evidence':
                zgiven = {v: rng.choice(K)}
                given[crp] = zgiven[v]
            N = rng.choice([n, None])
            if N is None:
                f = lambda: [view.simulate(row, list(names), dict(given))
                    for _ in range(n)]
            else:
                f = lambda: view.simulate(row, list(names), dict(given),
                    N=n)
            self.view_density(w, view, v, P, names, given, zgiven, rng)
        elif form == 'many':
            f = lambda: st.simulate(row, list(T), dict(cv), N=n)
        elif form == 'single':
            f = lambda: [st.simulate(row, list(T), dict(cv))
                for _ in range(n)]
        elif form == 'few':
            k = rng.choice([1, 2, 3, 7])
            f = lambda: [s for _ in range(n // k)
                for s in st.simulate(row, list(T), dict(cv), N=k)]
        else:
            # The query in two parts, among others on the same row.
            k = rng.randint(1, n - 1)
            cv2 = self.values(w, rng, C)
            free = [c for c in w.cols() if not w.dim_inputs_of(c)]
            qs = [(T, cv, k), (T, cv2, 3), (T, cv, n - k)]
            for m in range(rng.randint(0, 3) if free else 0):
                qs.insert(rng.randint(0, len(qs)), (rng.sample(free,
                    rng.randint(1, len(free))), {}, m + 1))
            keep = [q[0] is T and q[1] is cv for q in qs]

            def f():
                got = st.simulate_bulk([row] * len(qs), [list(q[0])
                    for q in qs], [dict(q[1]) for q in qs], None,
                    [q[2] for q in qs])
                for l, q in zip(got, qs):
                    ctx.check(len(l) == q[2] and all(set(s) == set(q[0])
                        for s in l), 'bulk', lambda: 'simulate_bulk answers '
                            '%d draws of %r to %r' % (len(l), l[:1], q))
                return [s for l, m in zip(got, keep) if m for s in l]
        try:
            S = list(f())
        except Exception as e:
            if world.numeric(e) or 'rejection' in str(e):
                ctx.log('numeric', repr(e))
                ctx.probe('numeric')
                return
            raise
        want = set(T) | (set([view.outputs[0]]) if form == 'view'
            and how == 'target' else set())
        ctx.check(len(S) in (n, n // k * k if form == 'few' else n), 'count',
            lambda: '%d rows drawn, %d asked' % (len(S), n))
        for s in S:
            ctx.check(set(s) == want, 'columns', lambda: 'a draw of %r has '
                'columns %r' % (sorted(want), sorted(s)))
        draws = {c: np.array([float(s[c]) for s in S]) for c in T}
        ctx.log('draws', core.short(draws) if hasattr(core, 'short')
            else repr({c: [round(float(x), 6) for x in d[:4]]
                for c, d in draws.items()}))
        if form == 'view' and how == 'target':
            z = {v: [int(s[view.outputs[0]]) for s in S]}
            ctx.check(all(k in P.tables(v)[0] for k in z[v]), 'clusters',
                'a draw from no cluster')
        # Forests read single precision.
        most = 1e37 if any(w.types[c][0] == 'random_forest'
            for c in w.cols()) else 1e100
        if any(not np.isfinite(d).all() or np.abs(d).max() > most
                for d in draws.values()):
            ctx.probe('overflow')
            return
        # Draws rounded to the end of an open support.
        checked = draws
        draws = {c: np.maximum(d, 1e-300) if w.types[c][0] in (
                'lognormal', 'exponential') else d for c, d in draws.items()}
        lp, U = P.walk(draws, cv, V=np.random.RandomState(
            (plan['sim'] * 48271 + 11) % 2**31), z=z, zgiven=zgiven)
        for c in T:
            t, d = w.types[c]
            ctx.check(supported(t, d, checked[c]), 'support', lambda: 'column '
                '%r (%s %r) drew outside its support: %r' % (
                    c, t, d, checked[c].tolist()[:10]))
        p, test, which = pred.test_uniform(U)
        ctx.probe('simulate-' + form)
        for c in T:
            ctx.probe('drew-' + w.types[c][0])
        ctx.check(p > P_MIN, 'distribution', lambda: '%d draws of %r given '
            '%r (%s, form %s) do not follow the reported density: %s test of '
            '%r has p = %.2g' % (len(S), T, cv, {c: w.types[c][0] for c in T},
                form, test, which, p))

    def view_density(self, w, view, v, P, names, given, zgiven, rng):
        """Density of a block with its cluster as target or evidence."""
        K, _n = P.tables(v)
        crp = view.outputs[0]
        vals = self.values(w, rng, [c for c in names if c != crp])
        tv = dict(vals)
        z = {}
        if crp in names:
            z = {v: [rng.choice(K)]}
            tv[crp] = z[v][0]
        cv = {c: x for c, x in given.items() if c != crp}
        got = view.logpdf(-1, self.shuffled(rng, tv), dict(given))
        want = float(P.walk({c: [x] for c, x in vals.items()}, cv, z=z,
            zgiven=zgiven)[0][0])
        w.ctx.check(core.close(got, want, **TOL), 'density-view', lambda:
            'view.logpdf(%r, %r) is %r, %r in closed form' % (
                tv, given, got, want))


def supported(t, d, x):
    if t in ('normal', 'linear_regression'):
        return True
    if t in ('lognormal', 'exponential'):
        return bool((x >= 0).all())
    if t in ('poisson', 'geometric'):
        return bool(((x >= 0) & (x == np.floor(x))).all())
    if t == 'vonmises':
        return bool(((x >= 0) & (x <= 2 * np.pi)).all())
    if t == 'beta':
        return bool(((x >= 0) & (x <= 1)).all())
    if t == 'normal_trunc':
        return bool(((x >= d['l']) & (x <= d['h'])).all())
    k = 2 if t == 'bernoulli' else int(d['k'])
    return bool(((x >= 0) & (x < k) & (x == np.floor(x))).all())


PROP = P13()
