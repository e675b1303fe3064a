"""P07: a rejected operation leaves the model unchanged."""

import copy

from .. import core, ref, world
from .hist import HistoryProp
from .p04 import check_partitions

NAN = float('nan')

EDIT_KINDS = ['row-wrong-rowid', 'row-inputs', 'row-unknown-col', 'row-nan',
    'row-support', 'row-support', 'row-support', 'unrow-wrong', 'dim-length',
    'dim-multi', 'dim-exists', 'dim-inputs', 'dim-support', 'dim-support',
    'dim-cctype', 'dim-blocked', 'undim-unknown', 'undim-input', 'undim-last',
    'force-rowid', 'force-observed', 'force-unknown', 'force-support',
    'force-support', 'cctype-col', 'cctype-unknown', 'cctype-support',
    'cctype-support', 'cctype-no-inputs', 'cctype-bad-input',
    'compose-duplicate', 'compose-cycle', 'decompose-unknown', 'rows-support',
    'rows-other', 'forces-support', 'forces-twice', 'forces-other']
QUERY_KINDS = ['q-overlap', 'q-duplicate', 'q-observed', 'q-contradict',
    'q-unknown', 'q-zero', 'mi-overlap', 'mi-partial', 'rel-col', 'rel-row',
    'rel-support', 'rel-support', 'kernel-cols', 'kernel-name',
    'kernel-blocked', 'sim-row', 'dep-unknown']


class Foreign(object):
    """A component with given outputs and inputs."""

    def __init__(self, outputs, inputs):
        self.outputs, self.inputs = outputs, inputs

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        return -1.

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        return {c: 0. for c in targets}


class P07(HistoryProp):
    id = 'P07'
    runs = {'quick': 6000, 'thorough': 200000}
    wall = {'quick': 40., 'thorough': 780.}
    n_ops = (2, 14)
    weights = dict(inc_row=3, uninc_row=1, inc_dim=2, uninc_dim=1, force=1,
        cctype=3, kernel=4, restore=1, inc_rows=.5, forces=.5)
    assumptions = ['a rejection is any exception; the random stream position '
        'is not part of the model', 'the parameters of a component that no '
        'row has been assigned to yet are not part of the model']

    def gen(self, rng, tier):
        plan = HistoryProp.gen(self, rng, tier)
        ops = []
        for op in plan['ops']:
            ops.append(op)
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                ops.append(self.gen_bad(rng))
        plan['ops'] = ops or [self.gen_bad(rng)]
        return plan

    def gen_bad(self, rng):
        kind = rng.choice(EDIT_KINDS if rng.random() < .75 else QUERY_KINDS)
        return dict(op='bad', kind=kind, s=rng.randint(1, 10**6),
            i=rng.randrange(60), j=rng.randrange(60),
            u=[world.gen_u(rng) for _ in range(14)],
            z=rng.choice([None, None, 0, 1, 2]), N=rng.choice([None, 1, 3]))

    def make(self, plan, ctx):
        w = Rejecting(plan['init'], ctx)
        return w

    def before(self, w, op):
        if op['op'] == 'bad':
            return self.observe(w)

    def observe(self, w):
        s = world.snapshot(w.state)
        pure = all(w.types[c][0] in world.COLLAPSED for c in w.cols())
        out = dict(snap=s, score=w.state.logpdf_score())
        if pure:
            out['pred'] = [w.state.logpdf(-1, {c: world.cell(
                w.types[c][0], w.types[c][1], .37)}) for c in w.cols()]
        return copy.deepcopy(out)

    def after(self, w, op, before, result=None):
        if op is not None and op['op'] == 'bad':
            kind, raised = result
            w.ctx.probe('reject-' + kind)
            w.ctx.fault('invalid-' + kind)
            must = kind not in ('compose-cycle',)
            w.ctx.check(raised is not None, 'not-rejected',
                lambda: '%s was accepted' % (kind,))
            try:
                now = self.observe(w)
            except Exception as e:
                raise core.Violation('changed-by-' + kind,
                    'after rejected %s (%s) the model is unusable: %r' % (
                        kind, raised, e))
            d = core.differ(before, now, rtol=1e-9, atol=1e-9)
            w.ctx.check(d is None, 'changed-by-' + kind,
                lambda: 'rejected %s (%s) changed the model: %s' % (
                    kind, raised, d))
        if op is None or op['op'] != 'kernel':
            check_partitions(w)

    def end(self, w, plan):
        m = ref.Model(w.state, w.table, w.types)
        got, want = w.state.logpdf_score(), m.score()
        w.ctx.check(core.close(got, want, 1e-5, 1e-3), 'final-score',
            lambda: 'score %r, recomputed %r' % (got, want))


class Rejecting(world.World):

    def op_bad(self, op):
        f = self.bad(op)
        try:
            f()
        except (KeyboardInterrupt, core.RunTimeout):
            raise
        except Exception as e:
            return (op['kind'], '%s: %s' % (type(e).__name__, str(e)[:80]))
        return (op['kind'], None)

    def support(self, op, cols=None):
        """(column, value outside its support)"""
        cands = []
        for c in (self.cols() if cols is None else cols):
            b = world.bad_cell(self.types[c][0], self.types[c][1],
                op['u'][0])
            if b is not None:
                cands.append((c, b))
        return self.pick(cands, op['i'])

    def good(self, c, u):
        return world.cell(self.types[c][0], self.types[c][1], u)

    def bad(self, op):
        st, kind, n = self.state, op['kind'], self.n_rows()
        cols = self.cols()
        obs = {c: self.good(c, op['u'][j % 14]) for j, c in enumerate(cols)}
        fresh = max(cols) + 1 + op['i']
        pick = self.pick
        if kind == 'row-wrong-rowid':
            r = pick([n + 1, n - 1, 0, -1, n + 5], op['j'])
            return lambda: st.incorporate(r, obs)
        if kind == 'row-inputs':
            return lambda: st.incorporate(n, obs, {fresh: 1.})
        if kind == 'row-unknown-col':
            obs[fresh] = 1.
            return lambda: st.incorporate(n, obs)
        if kind == 'row-nan':
            obs[pick(cols, op['i'])] = NAN
            return lambda: st.incorporate(n, obs)
        if kind == 'row-support':
            c, b = self.support(op)
            for x in cols:
                if x != c and op['u'][cols.index(x)] < .3 \
                        and x not in self.dim_inputs_of(c):
                    del obs[x]
            obs[c] = b
            if op['z'] is not None:
                for v in st.views:
                    K = sorted(st.views[v].Nk())
                    K.append(K[-1] + 1)
                    obs[st.views[v].outputs[0]] = K[op['z'] % len(K)]
            return lambda: st.incorporate(n, obs)
        if kind in ('rows-support', 'rows-other'):
            # Several rows, of which one is not acceptable.
            many = [{c: self.good(c, op['u'][(j + k) % 14])
                for j, c in enumerate(cols)
                if op['u'][(j * 3 + k) % 14] < .7}
                for k in range(1 + op['i'] % 3)]
            at = op['j'] % (len(many) + 1)
            ids = list(range(n, n + len(many) + 1))
            if kind == 'rows-support':
                c, b = self.support(op)
                # (with the inputs of a conditional column: it would
                # take the cell as missing without them)
                many.insert(at, {x: self.good(x, op['u'][0]) for x in cols})
                many[at][c] = b
            elif op['j'] % 3 == 0:
                many.insert(at, {cols[0]: NAN})
            elif op['j'] % 3 == 1:
                many.insert(at, {fresh: 1.})
            else:
                many.insert(at, {cols[0]: self.good(cols[0], .5)})
                ids[at] += 1 + op['i'] % 2
            return lambda: st.incorporate_bulk(ids, many)
        if kind.startswith('forces-'):
            ids, many = self.missing_rows([(op['i'] + k * k,
                [x if x < .8 else None for x in op['u'][k:k + 6]])
                for k in range(1 + op['j'] % 4)])
            done = set((r, c) for r, q in zip(ids, many) for c in q)
            at = op['j'] % (len(many) + 1)
            if kind == 'forces-twice':
                r, c = pick(sorted(done), op['i'])
                at = len(many)
                ids.append(r)
                many.append({c: self.good(c, .4)})
            elif kind == 'forces-support':
                cands = [(r, c, world.bad_cell(self.types[c][0],
                    self.types[c][1], op['u'][0]))
                    for c in cols for r in range(n) if (r, c) not in done
                    and world.isnan(self.table[c][r])
                    and self.types[c][0] not in world.CONDITIONAL]
                r, c, b = pick([x for x in cands if x[2] is not None],
                    op['i'])
                ids.insert(at, r)
                many.insert(at, {c: b})
            elif op['i'] % 2:
                ids.insert(at, n + op['i'] % 3)
                many.insert(at, {cols[0]: self.good(cols[0], .5)})
            else:
                r, c = pick([(r, c) for c in cols for r in range(n)
                    if not world.isnan(self.table[c][r])], op['i'])
                ids.insert(at, r)
                many.insert(at, {c: self.good(c, .5)})
            return lambda: st.force_cell_bulk(ids, many)
        if kind == 'unrow-wrong':
            r = pick([n, n + 2, -1] + list(range(n - 1)), op['j'])
            return lambda: st.unincorporate(r)
        T = [op['u'][i % 14] for i in range(n)]
        if kind == 'dim-length':
            T = T + [.5] if op['i'] % 2 else T[:-1]
            return lambda: st.incorporate_dim(T, [fresh], cctype='normal')
        if kind == 'dim-multi':
            outs = [fresh, fresh + 1] if op['i'] % 2 else []
            return lambda: st.incorporate_dim(T, outs, cctype='normal')
        if kind == 'dim-exists':
            return lambda: st.incorporate_dim(T, [pick(cols, op['i'])],
                cctype='normal')
        if kind == 'dim-inputs':
            return lambda: st.incorporate_dim(T, [fresh], inputs=[cols[0]],
                cctype='normal')
        V = sorted(st.views)
        v = None if op['z'] is None else (V + [V[-1] + 1])[
            op['z'] % (len(V) + 1)]
        if self.conditional_dims() and v is None:
            v = V[0]
        if kind == 'dim-support':
            t = pick(['bernoulli', 'poisson', 'categorical', 'lognormal',
                'geometric', 'exponential', 'beta', 'normal_trunc',
                'vonmises'], op['i'])
            d = {'categorical': {'k': 3}, 'normal_trunc': {'l': 0., 'h': 1.}
                }.get(t)
            T = [world.cell(t, d, u) for u in T]
            T[op['j'] % n] = world.bad_cell(t, d, op['u'][0])
            return lambda: st.incorporate_dim(T, [fresh], cctype=t,
                distargs=d, v=v)
        if kind == 'dim-cctype':
            return lambda: st.incorporate_dim(T, [fresh], cctype='nosuch',
                v=v)
        if kind == 'dim-blocked':
            # A column whose block must be inferred, where it cannot be.
            if not self.conditional_dims():
                raise world.Skip()
            return lambda: st.incorporate_dim(T, [fresh], cctype='normal')
        if kind == 'undim-unknown':
            return lambda: st.unincorporate_dim(fresh)
        if kind == 'undim-input':
            c = pick(sorted(self.used_inputs()), op['i'])
            return lambda: st.unincorporate_dim(c)
        if kind == 'undim-last':
            if len(cols) > 1:
                raise world.Skip()
            return lambda: st.unincorporate_dim(cols[0])
        if kind == 'force-rowid':
            r = pick([-1, n, n + 4], op['j'])
            return lambda: st.force_cell(r, {cols[0]: self.good(cols[0], .5)})
        miss = [(r, c) for r in range(n) for c in cols
            if world.isnan(self.table[c][r])]
        if kind == 'force-observed':
            have = [(r, c) for r in range(n) for c in cols
                if not world.isnan(self.table[c][r])]
            r, c = pick(have, op['i'])
            q = {c: self.good(c, .5)}
            for c2 in cols:
                if world.isnan(self.table[c2][r]):
                    q[c2] = self.good(c2, .5)
            return lambda: st.force_cell(r, q)
        if kind == 'force-unknown':
            return lambda: st.force_cell(0, {fresh: 1.})
        if kind == 'force-support':
            cands = []
            for r, c in miss:
                if self.types[c][0] in world.CONDITIONAL:
                    continue
                b = world.bad_cell(self.types[c][0], self.types[c][1],
                    op['u'][0])
                if b is not None:
                    cands.append((r, c, b))
            r, c, b = pick(cands, op['i'])
            q = {}
            for c2 in cols:
                if world.isnan(self.table[c2][r]) and c2 != c:
                    q[c2] = self.good(c2, op['u'][cols.index(c2) % 14])
            q[c] = b
            if op['j'] % 2:
                q = {k: q[k] for k in reversed(list(q))}
            return lambda: st.force_cell(r, q)
        if kind == 'cctype-col':
            return lambda: st.update_cctype(fresh, 'normal')
        if kind == 'cctype-unknown':
            return lambda: st.update_cctype(pick(cols, op['i']), 'nosuch')
        if kind == 'cctype-support':
            cands = []
            for c in cols:
                if c in self.used_inputs():
                    continue
                for t, d in (('bernoulli', None), ('categorical', {'k': 2}),
                        ('poisson', None), ('geometric', None),
                        ('beta', None), ('normal_trunc', {'l': 0., 'h': .5}),
                        ('vonmises', None), ('lognormal', None)):
                    xs = [x for x in self.table[c] if not world.isnan(x)]
                    # Clearly outside, not merely at the edge of the support.
                    out = [x for x in xs if not world.fits(t, d, [x])
                        and x not in (0., 1.)]
                    if out:
                        cands.append((c, t, d))
            c, t, d = pick(cands, op['i'])
            return lambda: st.update_cctype(c, t, copy.deepcopy(d))
        if kind == 'cctype-no-inputs':
            solo = [c for c in cols if not [
                e for e in st.view_for(c).dims if e != c
                and self.types[e][0] not in world.CONDITIONAL]
                and c not in self.used_inputs()]
            c = pick(solo, op['i'])
            return lambda: st.update_cctype(c, 'linear_regression')
        if kind == 'cctype-bad-input':
            c = pick([c for c in cols if c not in self.used_inputs()],
                op['i'])
            other = [e for e in cols if st.Zv(e) != st.Zv(c)] + [fresh]
            return lambda: st.update_cctype(c, 'linear_regression',
                {'inputs': [pick(other, op['j'])]})
        if kind == 'compose-duplicate':
            g = Foreign([fresh, pick(cols, op['i'])], [])
            return lambda: st.compose_cgpm(g)
        if kind == 'compose-cycle':
            a = Foreign([fresh], [fresh])
            return lambda: st.compose_cgpm(a)
        if kind == 'decompose-unknown':
            return lambda: st.decompose_cgpm(-5)
        # Queries.
        tv = lambda c: self.good(c, op['u'][cols.index(c) % 14])
        c0 = pick(cols, op['i'])
        c1 = pick(cols, op['j'])
        if kind == 'q-overlap':
            if op['i'] % 2:
                return lambda: st.logpdf(-1, {c0: tv(c0)}, {c0: tv(c0)})
            return lambda: st.simulate(-1, [c0], {c0: tv(c0)}, None, op['N'])
        if kind == 'q-duplicate':
            return lambda: st.simulate(-1, [c0, c0], None, None, op['N'])
        have = [(r, c) for r in range(n) for c in cols
            if not world.isnan(self.table[c][r])]
        r, c = pick(have, op['j'])
        if kind == 'q-observed':
            return lambda: st.logpdf(r, {c: self.table[c][r]})
        if kind == 'q-contradict':
            others = [x for x in cols if x != c
                and world.isnan(self.table[x][r])]
            t = pick(others, op['i'])
            bad = {c: self.table[c][r] + 1.}
            if op['i'] % 2:
                return lambda: st.logpdf(r, {t: tv(t)}, bad)
            return lambda: st.simulate(r, [t], bad, None, op['N'])
        if kind == 'q-unknown':
            # Networks ignore variables that no component models.
            if op['i'] % 2 and not st.is_composite():
                return lambda: st.logpdf(-1, {fresh: 1., c0: tv(c0)})
            return lambda: st.simulate(-1, [c0, fresh], None, None, op['N'])
        if kind == 'q-zero':
            c, b = self.support(op)
            if self.types[c][0] in world.CONDITIONAL:
                raise world.Skip()
            t = pick([x for x in cols if x != c
                and st.Zv(x) == st.Zv(c) and
                self.types[x][0] not in world.CONDITIONAL], op['j'])
            if op['i'] % 2:
                return lambda: st.logpdf(-1, {t: tv(t)}, {c: b})
            return lambda: st.simulate(-1, [t], {c: b}, None, op['N'])
        if kind == 'mi-overlap':
            return lambda: st.mutual_information([c0], [c1], {c0: tv(c0)},
                T=2, N=2, progress=False)
        if kind == 'mi-partial':
            if len(cols) < 2:
                raise world.Skip()
            other = [x for x in cols if x != c0][0]
            return lambda: st.mutual_information([c0, other], [c0],
                T=2, N=2, progress=False)
        if kind == 'rel-col':
            return lambda: st.relevance_probability(0, [1], fresh)
        if kind == 'rel-row':
            h = [{c: self.good(c, .4) for c in cols}]
            if op['i'] % 2:
                return lambda: st.relevance_probability(n + 7, [0], c0, h)
            return lambda: st.relevance_probability(0, [n + 7], c0, h)
        if kind == 'rel-support':
            view = st.view_for(c0)
            c, b = self.support(op, sorted(view.dims))
            hyp = [{x: self.good(x, .4) for x in sorted(view.dims)},
                {x: self.good(x, .6) for x in sorted(view.dims)}]
            hyp[op['j'] % 2][c] = b
            return lambda: st.relevance_probability(0, [1], c0, hyp)
        if kind == 'kernel-cols':
            return lambda: st.transition(N=1, cols=[cols[0], fresh],
                progress=False)
        if kind == 'kernel-name':
            return lambda: st.transition(N=1, kernels=['alpha', 'nosuch'],
                progress=False)
        if kind == 'kernel-blocked':
            if not self.conditional_dims():
                raise world.Skip()
            return lambda: st.transition_dims()
        if kind == 'sim-row':
            return lambda: st.simulate(-1, c0, None, None, op['N'])
        if kind == 'dep-unknown':
            return lambda: st.dependence_probability(c0, fresh)
        raise KeyError(kind)


PROP = P07()
