"""P09: inference moves have the conditional probabilities of the model.

The random-number generator is the seam: every categorical draw of a kernel is
recorded, and the kernel is re-run from the same state once per candidate with
that candidate forced.  The probability the kernel gave to a candidate is then
compared with the score an independent model gives to the state the kernel
actually produced.
"""

import copy
import math
import random

import numpy as np

from .. import core, ref, world
from .hist import HistoryProp


class Recorder(object):
    def __init__(self, at=None, index=None):
        self.calls, self.at, self.index = [], at, index


class RecRng(np.random.RandomState):
    """Records categorical draws; one of them can be forced."""

    recorder = None

    def choice(self, a, size=None, replace=True, p=None):
        x = np.random.RandomState.choice(self, a, size, replace, p)
        R = RecRng.recorder
        if R is None or p is None or size is not None:
            return x
        values = list(range(a)) if isinstance(a, (int, np.integer)) \
            else list(a)
        forced = len(R.calls) == R.at
        if forced:
            x = values[R.index]
        R.calls.append((values, [float(q) for q in p], x))
        return x

    def __deepcopy__(self, memo):
        r = RecRng()
        r.set_state(self.get_state())
        memo[id(self)] = r
        return r


def softmax(w):
    m = max(w)
    e = [math.exp(x - m) for x in w]
    t = sum(e)
    return [x / t for x in e]


def agree(p, q):
    return abs(p - q) <= 1e-5 + 1e-3 * max(abs(p), abs(q))


def canon(Z):
    m = {}
    return tuple(m.setdefault(Z[k], len(m)) for k in sorted(Z))


class P09(HistoryProp):
    id = 'P09'
    runs = {'quick': 2500, 'thorough': 120000}
    wall = {'quick': 50., 'thorough': 780.}
    weights = dict(world.DEFAULT_WEIGHTS, kernel=4)
    n_ops = (0, 7)
    rule = ('one evaluation = one simulated run (random history, then forced '
        're-executions of sampled moves); distinct = distinct event-log '
        'digests of runs that checked at least one move')
    assumptions = ['row moves of columns with explicit component parameters '
        'are the auxiliary-component sampler (the prior of the parameters is '
        'where fresh ones come from, so it is not part of the weight)',
        'column moves with m auxiliary blocks give each of them 1/m of the '
        'weight of a new block',
        'a kernel that makes no recordable categorical draw is not judged']

    def gen(self, rng, tier):
        plan = HistoryProp.gen(self, rng, tier)
        cols = [c['id'] for c in plan['init']['cols']]
        r = rng.random()
        if cols != list(range(len(cols))):
            r = 1.      # constraints need zero-based columns
        if r < .25 and len(cols) >= 2:
            plan['init'].pop('Zv', None)
            plan['init'].pop('Zrv', None)
            rng.shuffle(cols)
            k = rng.randint(2, len(cols))
            plan['init']['Cd'] = [cols[:k]]
            if len(cols) - k >= 2 and rng.random() < .7:
                plan['init']['Cd'].append(cols[k:k + rng.randint(2, 3)])
        elif r < .5 and len(cols) >= 2:
            plan['init'].pop('Zv', None)
            plan['init'].pop('Zrv', None)
            plan['init']['Ci'] = [rng.sample(cols, 2)
                for _ in range(rng.randint(1, 2))]
        if plan['init'].get('Cd') or plan['init'].get('Ci'):
            # Table edits under constraints are the subject of P08.
            plan['ops'] = [o for o in plan['ops'] if o['op'] not in (
                'inc_dim', 'uninc_dim', 'restore')]
        plan['moves'] = [dict(
            kind=rng.choice(['row', 'row', 'row', 'col', 'col', 'hyper',
                'hyper', 'alpha', 'view_alpha', 'params', 'sweep']),
            a=rng.randrange(60), b=rng.randrange(60), m=rng.choice([1, 1, 2, 3]),
            s=rng.randint(1, 10**6)) for _ in range(rng.randint(2, 5))]
        return plan

    def shrink(self, plan):
        for i in range(len(plan['moves'])):
            if len(plan['moves']) > 1:
                yield dict(plan, moves=plan['moves'][:i]
                    + plan['moves'][i + 1:])
        for p in HistoryProp.shrink(self, plan):
            yield p

    def make(self, plan, ctx):
        RecRng.recorder = None
        return world.World(plan['init'], ctx, make_rng=RecRng)

    def nontrivial(self, plan, ctx):
        return ctx.checks >= 1

    def end(self, w, plan):
        try:
            for mv in plan['moves']:
                try:
                    getattr(self, 'move_' + mv['kind'])(w, mv)
                except world.Skip:
                    continue
                w.ctx.ops += 1
                w.ctx.probe('move-' + mv['kind'])
        finally:
            RecRng.recorder = None

    # -- machinery ------------------------------------------------------------
    def run(self, w, mv, f, at=None, index=None):
        """Run f on a copy of the state; (copy, recorded draws)."""
        st = copy.deepcopy(w.state)
        st.rng.seed(mv['s'])
        RecRng.recorder = R = Recorder(at, index)
        try:
            f(st)
        finally:
            RecRng.recorder = None
        return st, R.calls

    def model(self, w, st):
        return ref.Model(st, w.table, w.types)

    def weigh(self, w, name, p, weights, what):
        """The recorded probabilities against the model's weights."""
        q = softmax(weights)
        w.ctx.log(name, [round(x, 9) for x in q])
        w.ctx.fault('forced-draw', len(q))
        w.ctx.check(all(agree(a, b) for a, b in zip(p, q)), name,
            lambda: '%s: candidates drawn with probabilities %r; the states '
            'they lead to have model probabilities %r' % (what,
                [round(x, 6) for x in p], [round(x, 6) for x in q]))

    # -- rows -----------------------------------------------------------------
    def move_row(self, w, mv):
        st0 = w.state
        if w.n_rows() < 2:
            raise world.Skip()
        v = w.pick(sorted(st0.views), mv['a'])
        r = mv['b'] % w.n_rows()
        f = lambda st: st.views[v].transition_rows(rows=[r])
        _st, calls = self.run(w, mv, f)
        if not calls:
            w.ctx.probe('opaque')
            return
        w.ctx.check(len(calls) == 1, 'row-draws', lambda: 'moving row %d of '
            'view %r made %d categorical draws' % (r, v, len(calls)))
        p = calls[0][1]
        others = set(z for q, z in st0.views[v].Zr().items() if q != r)
        weights, seen = [], []
        for i in range(len(p)):
            st, _c = self.run(w, mv, f, 0, i)
            m = self.model(w, st)
            view = st.views[v]
            seen.append(canon(view.Zr()))
            rest = {q: z for q, z in view.Zr().items() if q != r}
            w.ctx.check(canon(rest) == canon({q: z for q, z
                in st0.views[v].Zr().items() if q != r}), 'row-others',
                'moving one row moved another')
            weights.append(ref.crp(list(m.counts(v).values()), view.alpha())
                + sum(m.dim_score(c, prior=False) for c in view.dims))
        w.ctx.check(len(set(seen)) == len(seen) == len(others) + 1,
            'row-candidates', lambda: 'row %d of view %r: %d candidates '
            '(%d distinct), %d other clusters and a new one expected' % (
                r, v, len(seen), len(set(seen)), len(others)))
        self.weigh(w, 'row-probability', p, weights, 'row %d of view %r' % (
            r, v))

    def move_sweep(self, w, mv):
        """A sweep over rows makes one move per row and view."""
        st0 = w.state
        if w.n_rows() < 2:
            raise world.Skip()
        if mv['a'] % 2:
            _st, calls = self.run(w, mv, lambda st: st.transition_view_rows())
            want = w.n_rows() * len(st0.views)
        elif mv['a'] % 4:
            _st, calls = self.run(w, mv, lambda st: st.transition(N=mv['m'],
                kernels=['rows'], progress=False))
            want = w.n_rows() * len(st0.views) * mv['m']
        else:
            v = w.pick(sorted(st0.views), mv['a'])
            rows = sorted(set([mv['b'] % w.n_rows(), mv['s'] % w.n_rows()]))
            _st, calls = self.run(w, mv, lambda st: st.transition_view_rows(
                views=[v], rows=rows))
            want = len(rows)
        if not calls:
            w.ctx.probe('opaque')
            return
        w.ctx.check(len(calls) == want, 'row-sweep', lambda: 'a sweep over '
            'rows made %d moves, expected %d' % (len(calls), want))

    # -- columns --------------------------------------------------------------
    def move_col(self, w, mv):
        st0 = w.state
        if w.conditional_dims() or st0.Cd:
            raise world.Skip()
        c = w.pick(w.cols(), mv['a'])
        m = mv['m']
        f = lambda st: st.transition_dims(cols=[c], m=m)
        _st, calls = self.run(w, mv, f)
        others = set(z for d, z in st0.Zv().items() if d != c)
        if not calls or (m == 1 and not others):
            w.ctx.probe('opaque')
            return
        at = len(calls) - 1
        values, p, _x = calls[at]
        if len(p) != len(others) + m:
            w.ctx.check(False, 'column-candidates', lambda: 'column %r: %d '
                'candidates, expected the %d other blocks and %d new' % (
                    c, len(p), len(others), m))
        friends = set(a for b in st0.Ci if c in b for a in b if a != c)
        blocked = set(st0.Zv(a) for a in friends)
        weights, probs, existing, zero = [], [], [], 0
        for i in range(len(p)):
            if p[i] == 0. and blocked:
                zero += 1
                continue
            st, _c = self.run(w, mv, f, at, i)
            v = st.Zv(c)
            rest = lambda s: canon({d: z for d, z in s.Zv().items()
                if d != c})
            w.ctx.check(rest(st) == rest(st0), 'column-others',
                'moving one column moved another')
            w.ctx.check(not any(st.Zv(a) == v for a in friends),
                'column-forbidden', lambda: 'column %r joins the block of a '
                'column it must be independent of with probability %r' % (
                    c, p[i]))
            mod = self.model(w, st)
            alone = [d for d, z in st.Zv().items() if z == v] == [c]
            lw = ref.crp(list(_counts(st.Zv()).values()), st.alpha())
            weights.append(lw - (math.log(m) if alone else 0.)
                + mod.dim_score(c))
            probs.append(p[i])
            if not alone:
                existing.append(v)
            if not alone or v in st0.views:
                # An existing block keeps its rows.
                w.ctx.check(canon(st.views[v].Zr())
                    == canon(st0.views[v].Zr()), 'column-rows',
                    'moving a column changed the row partition of a block')
        w.ctx.check(set(existing) >= others - blocked
            and zero <= len(blocked), 'column-candidates', lambda:
            'column %r is offered blocks %r of %r; %d have probability zero '
            'and %d are forbidden' % (c, sorted(existing), sorted(others),
                zero, len(blocked)))
        if not weights:
            raise world.Skip()
        self.weigh(w, 'column-probability', probs, weights,
            'column %r (%s), m=%d' % (c, w.types[c][0], m))

    # -- grids ----------------------------------------------------------------
    def move_hyper(self, w, mv):
        st0 = w.state
        c = w.pick(w.cols(), mv['a'])
        mod0 = self.model(w, st0)
        if not mod0.collapsed(c):
            raise world.Skip()
        st, calls = self.run(w, mv,
            lambda s: s.transition_dim_hypers(cols=[c]))
        grids = {h: [float(g) for g in gs]
            for h, gs in st0.dim_for(c).hyper_grids.items()}
        free = [h for h in grids if len(grids[h]) > 1]
        if not free:
            raise world.Skip()
        if not calls:
            w.ctx.probe('opaque')
            return
        w.ctx.check(len(calls) == len(free), 'hyper-draws', lambda:
            'column %r (%s): %d draws for hyperparameters %r' % (
                c, w.types[c][0], len(calls), sorted(free)))
        final = {h: float(x) for h, x in st.dim_for(c).hypers.items()}
        now = {h: float(x) for h, x in st0.dim_for(c).hypers.items()}
        for h in grids:
            if len(grids[h]) == 1:
                now[h] = grids[h][0]
        rng = random.Random(mv['s'])

        def fits(h, p, at):
            g = grids[h]
            if len(p) != len(g):
                return False
            top = max(range(len(p)), key=lambda i: p[i])
            base = mod0.dim_score(c, hypers=dict(at, **{h: g[top]}))
            for i in rng.sample(range(len(p)), min(5, len(p))):
                lw = mod0.dim_score(c, hypers=dict(at, **{h: g[i]})) - base
                if not agree(p[i] / p[top], math.exp(min(lw, 50.))):
                    return False
            return True

        def search(j, left, at):
            if j == len(calls):
                return not left
            values, p, x = calls[j]
            for h in sorted(left):
                if len(p) != len(grids[h]):
                    continue
                # The drawn index is where the final value sits.
                ok = [i for i in range(len(p)) if grids[h][i] == final[h]]
                drawn = x if isinstance(x, (int, np.integer)) and values == \
                    list(range(len(p))) else None
                if drawn is not None and drawn not in ok:
                    continue
                if fits(h, p, at) and search(j + 1, left - {h},
                        dict(at, **{h: final[h]})):
                    return True
            return False

        w.ctx.log('hyper', w.types[c][0], len(calls))
        w.ctx.check(search(0, set(free), now), 'hyper-probability', lambda:
            'column %r (%s): no order of the hyperparameters %r explains the '
            'probabilities of the draws over their grids' % (
                c, w.types[c][0], sorted(free)))

    def move_alpha(self, w, mv):
        st0 = w.state
        if st0.Ci:
            raise world.Skip()
        _st, calls = self.run(w, mv, lambda s: s.transition_crp_alpha())
        grid = [float(g) for g in st0.crp.hyper_grids['alpha']]
        n = _counts(st0.Zv())
        if st0.Cd:
            seen, blocks = set(), []
            for b in st0.Cd:
                blocks.append(b[0])
                seen.update(b)
            Zv = st0.Zv()
            n = _counts({d: Zv[d] for d in Zv
                if d in blocks or d not in seen})
        self.grid(w, 'alpha', calls, grid, list(n.values()), _st.alpha())

    def move_view_alpha(self, w, mv):
        st0 = w.state
        v = w.pick(sorted(st0.views), mv['a'])
        st, calls = self.run(w, mv,
            lambda s: s.transition_view_alphas(views=[v]))
        grid = [float(g) for g in st0.views[v].crp.hyper_grids['alpha']]
        n = _counts(st0.views[v].Zr())
        self.grid(w, 'view-alpha', calls, grid, list(n.values()),
            st.views[v].alpha())

    def grid(self, w, name, calls, grid, counts, final):
        if len(grid) < 2:
            raise world.Skip()
        if not calls:
            w.ctx.probe('opaque')
            return
        lw = [ref.crp(counts, a) for a in grid]
        q = softmax(lw)
        for values, p, x in calls:
            w.ctx.check(len(p) == len(q) and all(agree(a, b)
                for a, b in zip(p, q)), name + '-probability', lambda:
                'concentration drawn with probabilities %r..., the partition '
                '%r has %r...' % ([round(a, 6) for a in p[:4]], counts,
                    [round(a, 6) for a in q[:4]]))
        w.ctx.check(any(core.close(final, g) for g in grid),
            name + '-probability', 'concentration outside its grid')
        w.ctx.log(name, len(calls), round(float(final), 9))

    # -- component parameters -------------------------------------------------
    def move_params(self, w, mv):
        """The density a parameter move targets is the posterior."""
        from cgpm.utils import sampling as su
        cs = [c for c in w.cols()
            if w.types[c][0] in ('beta', 'normal_trunc')]
        c = w.pick(cs, mv['a'])
        t, d = w.types[c]
        rng = random.Random(mv['s'])
        real = su.mh_sample
        got = []

        def capture(x, target, jump_std, D, *a, **k):
            lo, hi = D
            pts = [x] + [rng.uniform(.05, .95) * (hi - lo) + lo
                if hi < float('inf') else .2 + 3 * rng.random()
                for _ in range(4)]
            got.append((st_box[0], [(y, float(target(y))) for y in pts],
                snapshot(st_box[0])))
            return real(x, target, jump_std, D, *a, **k)

        def snapshot(s):
            return {k: (g, dict(g.get_params()))
                for k, g in s.dim_for(c).clusters.items()}

        st_box = [None]

        def f(s):
            st_box[0] = s
            s.transition_dim_params(cols=[c])

        su.mh_sample = capture
        try:
            self.run(w, mv, f)
        finally:
            su.mh_sample = real
        if not got:
            w.ctx.probe('opaque')
            return
        for s, pts, clusters in got:
            mod = self.model(w, s)
            ok = False
            for k, (g, params) in clusters.items():
                xs = [x for x, _y in mod.members(c, k)]
                for name in params:
                    vals = []
                    for y, lt in pts:
                        given = dict(params, **{name: y})
                        if name == 'balance' and not 0 < y < 1:
                            break
                        lp, prior = ref.uncollapsed(t, g, d, xs, **given)
                        vals.append((lt, sum(lp) + prior))
                    if len(vals) < len(pts):
                        continue
                    d0 = vals[0][0] - vals[0][1]
                    if all(core.close(a - d0, b, 1e-4, 1e-3)
                            for a, b in vals):
                        ok = True
            w.ctx.check(ok, 'param-target', lambda: 'column %r (%s): a '
                'parameter move targets %r, which is no conditional of the '
                'posterior of any of its components' % (c, t, pts))
        w.ctx.log('params', t, len(got))


def _counts(Z):
    n = {}
    for z in Z.values():
        n[z] = n.get(z, 0) + 1
    return n


PROP = P09()
