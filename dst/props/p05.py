"""P05: scores and predictive densities equal a from-scratch computation."""

import random

from .. import core, ref, world
from .hist import HistoryProp

TOL = dict(rtol=1e-5, atol=1e-3)


class P05(HistoryProp):
    id = 'P05'
    constraints_rate = .15
    selfcheck = .08
    runs = {'quick': 4000, 'thorough': 200000}
    wall = {'quick': 40., 'thorough': 780.}
    assumptions = ['rows 0 and 1 of every column are observed and distinct',
        'types without a closed-form marginal likelihood (beta, normal_trunc, '
        'random_forest) are evaluated at the parameters of each component',
        'densities of conditional columns are compared when every input of a '
        'target is itself a target or evidence, so no sampling is involved']

    def make(self, plan, ctx):
        w = HistoryProp.make(self, plan, ctx)
        return w

    def gen(self, rng, tier):
        plan = HistoryProp.gen(self, rng, tier)
        plan['qseed'] = rng.randint(1, 10**9)
        return plan

    def begin(self, w, plan):
        w.qrng = random.Random(plan.get('qseed', 1))

    def after(self, w, op, before, result=None):
        st, ctx = w.state, w.ctx
        m = ref.Model(st, w.table, w.types)
        chk = ctx.check

        def eq(name, got, want):
            chk(core.close(got, want, **TOL), name, lambda: '%s is %r, '
                'recomputed from the table %r' % (name, got, want))

        for c in st.outputs:
            eq('dim-score', st.dim_for(c).logpdf_score(), m.dim_score(c))
        for v, view in st.views.items():
            eq('row-crp-score', view.logpdf_prior(),
                ref.crp(list(m.counts(v).values()), view.alpha()))
            eq('view-likelihood', view.logpdf_likelihood(),
                sum(m.dim_score(c) for c in view.dims))
            eq('view-score', view.logpdf_score(), m.view_score(v))
        eq('likelihood', st.logpdf_likelihood(), m.likelihood())
        if not st.Ci:
            eq('column-crp-score', st.logpdf_score_crp(), m.state_crp())
            eq('score', st.logpdf_score(), m.score())
        self.predictive(w, m)

    def predictive(self, w, m):
        st, rng = w.state, w.qrng
        cols = w.cols()
        for _ in range(2):
            T = rng.sample(cols, rng.randint(1, min(3, len(cols))))
            rest = [c for c in cols if c not in T]
            C = rng.sample(rest, rng.randint(0, min(2, len(rest))))
            # Give conditional columns their inputs.
            for c in list(C):
                C += [i for i in w.dim_inputs_of(c) if i not in C
                    and i not in T]
            for c in list(T):
                C += [i for i in w.dim_inputs_of(c) if i not in C
                    and i not in T]
            val = lambda c: world.cell(w.types[c][0], w.types[c][1],
                rng.randint(0, 999) / 1000.)
            tv, cv = {c: val(c) for c in T}, {c: val(c) for c in C}
            if not m.exact(tv, cv):
                continue
            row = rng.choice([-1, w.n_rows(), w.n_rows() + 3])
            got = st.logpdf(row, dict(tv), dict(cv))
            want = m.logpdf(tv, cv)
            w.ctx.check(core.close(got, want, **TOL), 'predictive',
                lambda: 'logpdf(%r, %r, %r) = %r, recomputed %r' % (
                    row, tv, cv, got, want))
        # Missing cells of an observed row.
        miss = [(r, c) for c in cols for r in range(w.n_rows())
            if world.isnan(w.table[c][r])]
        if miss and not w.conditional_dims():
            r = rng.choice(miss)[0]
            T = [c for q, c in miss if q == r]
            T = rng.sample(T, rng.randint(1, len(T)))
            tv = {c: world.cell(w.types[c][0], w.types[c][1],
                rng.randint(0, 999) / 1000.) for c in T}
            got = st.logpdf(r, dict(tv))
            want = m.logpdf_row(r, tv, {})
            w.ctx.check(core.close(got, want, **TOL), 'predictive-row',
                lambda: 'logpdf(%r, %r) = %r, recomputed %r' % (
                    r, tv, got, want))


PROP = P05()
