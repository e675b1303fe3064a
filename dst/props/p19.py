"""P19: mutual information and entropy estimates converge on the quantity
the model defines."""

import itertools
import math
import random

import numpy as np

from .. import core, pred, ref, world
from ..simrng import Injected, SimRng
from .hist import HistoryProp

MOST = 400      # value combinations enumerated


class Skip(Exception):
    pass


class Flip(object):
    """A composed component: a coin whose weight depends on its inputs."""

    def __init__(self, output, inputs, weights, rng):
        self.outputs, self.inputs = [output], list(inputs)
        self.weights, self.rng = weights, rng

    def weight(self, inputs):
        # Accepts arrays.
        i = 1
        for k in self.inputs:
            i = (i * 3 + np.asarray(inputs[k], int)) % len(self.weights)
        return np.asarray(self.weights)[i]

    def logp(self, x, inputs):
        p = self.weight(inputs)
        return np.log(np.where(np.asarray(x) == 1, p, 1 - p))

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        return float(self.logp(targets[self.outputs[0]], inputs))

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        one = lambda: {self.outputs[0]: int(
            self.rng.random_sample() < self.weight(inputs))}
        return one() if N is None else [one() for _ in range(N)]


class P19(HistoryProp):
    id = 'P19'
    runs = {'quick': 2000, 'thorough': 100000}
    wall = {'quick': 45., 'thorough': 780.}
    weights = dict(world.DEFAULT_WEIGHTS, kernel=4, relevance=0)
    n_ops = (0, 6)
    assumptions = ['an average over one draw of finite columns is the log '
        'density (ratio) of one of the possible draws', 'the estimand is the expectation, over the predictive law '
        'of a new row, of log densities in closed form: by enumeration for '
        'finite columns, else over an independent sample which itself '
        'passes a test against that law',
        'an estimate more than 4 standard errors off '
        'is repeated with a large sample, and alarms when that is off by 7 with a Bernstein term',
        'conditional columns are asked together with their inputs, or with '
        'the inputs as evidence']

    def gen_init(self, rng, tier):
        # Half the worlds are finite, where the answers are exact.
        types = rng.choice([self.types, [t for t in self.types
            if t in world.FINITE]])
        init = world.gen_init(rng, types, cols=(2, 6), rows=(2, 12))
        if init.get('Zrv') and rng.random() < .7:
            # Columns that depend on each other: alike within a cluster.
            u = rng.random()
            if u < .4:
                init['Zv'] = [rng.randrange(2) for _ in init['cols']]
                init['Zrv'] = {str(v): [rng.choice([0, 0, 1, 2])
                    for _ in range(init['rows'])] for v in set(init['Zv'])}
            elif u < .8:
                init['Zv'] = [init['Zv'][0]] * len(init['cols'])
                init['Zrv'] = {str(init['Zv'][0]): [rng.choice([0, 0, 1, 2])
                    for _ in range(init['rows'])]}
            for i, c in enumerate(init['cols']):
                Z = init['Zrv'][str(init['Zv'][i])]
                like = {k: rng.random() for k in sorted(set(Z))}
                c['u'] = [u if u is None or rng.random() < .1
                    else min(round(like[Z[r]], 3), .999) for r, u in enumerate(c['u'])]
                if rng.random() < .8:
                    a = rng.choice([.03, .1, .3])
                    if c['cctype'] == 'categorical':
                        c['hypers'] = dict(alpha=a)
                    elif c['cctype'] == 'bernoulli':
                        c['hypers'] = dict(alpha=a, beta=a)
        return init

    def gen(self, rng, tier):
        plan = HistoryProp.gen(self, rng, tier)
        if rng.random() < .4:
            plan['ops'] = [o for o in plan['ops'] if o['op'] in ('inc_row',
                'restore', 'force')]
        if rng.random() < .15:
            t = rng.choice(world.CONDITIONAL)
            op = world.gen_op(rng, 'cctype')
            op.update(cctype=t, distargs=world.gen_distargs(rng, t))
            plan['ops'].append(op)
        plan['qseed'] = rng.randint(1, 10**9)
        plan['asks'] = rng.randint(0, 2)
        return plan

    def make(self, plan, ctx):
        return world.World(plan['init'], ctx, SimRng)

    # ----------------------------------------------------------------------
    def query(self, w, rng):
        """(col0, col1, evidence values, evidence without values)."""
        cols = w.cols()
        shape = rng.choice(['block', 'pairs', 'any'])
        pool = rng.sample(cols, len(cols))
        views = sorted(w.state.views.values(), key=lambda v: (len(v.dims),
            rng.random()), reverse=True)
        if shape == 'block':
            # Columns of one block, so that they depend on each other.
            pool.sort(key=lambda c: c not in views[0].dims)
        elif shape == 'pairs':
            # As many of each of two blocks, in every role.
            two = [[c for c in pool if c in v.dims] for v in views[:2]]
            mixed = [c for t in itertools.zip_longest(*two) for c in t
                if c is not None]
            pool = mixed + [c for c in pool if c not in mixed]
        entropy = rng.random() < .3 or len(pool) < 2
        k0 = rng.choice([1, 1, 2, 3]) if shape != 'pairs' else 2
        A = pool[:k0]
        pool = pool[k0:]
        if entropy:
            B = list(A)
            rng.shuffle(B)
        else:
            k1 = rng.choice([1, 1, 2]) if shape != 'pairs' else 2
            B, pool = pool[:k1], pool[k1:]
            if not B:
                A, B = A[:-1], A[-1:]
        C = pool[:rng.choice([0, 1, 1, 2])]
        pool = pool[len(C):]
        M = pool[:rng.choice([0, 0, 1, 1, 2])]
        # A conditional column and its inputs stand on the same side, or the
        # inputs have values.
        sides = [A, B, M, C]
        while True:
            moved = False
            for s in sides:
                for c in list(s):
                    for i in w.dim_inputs_of(c):
                        if i in s or i in C:
                            continue
                        for q in (A, B, M):
                            if i in q and not (q in (A, B) and entropy
                                    and s in (A, B)):
                                q.remove(i)
                        C.append(i)
                        moved = True
            if not moved:
                break
        for s in (A, B, M):
            s[:] = [c for c in s if c not in C]
        if entropy:
            B = [c for c in B if c in A]
            A = [c for c in A if c in B]
        if not A or not B:
            raise Skip()
        return A, B, C, M

    def values(self, w, rng, cols):
        return {c: world.cell(w.types[c][0], w.types[c][1],
            rng.randint(0, 999) / 1000.) for c in cols}

    # ----------------------------------------------------------------------
    def finite(self, w, cols):
        n = 1
        for c in cols:
            if self.arity(w, c) is None:
                return False
            n *= self.arity(w, c)
        return n <= MOST

    def arity(self, w, c):
        t, d = w.types[c]
        return 2 if t == 'bernoulli' else int(d['k']) if t in (
            'categorical', 'random_forest') else None

    def combos(self, w, cols):
        sup = [range(self.arity(w, c)) for c in cols]
        combos = list(itertools.product(*sup))
        return {c: np.array([x[i] for x in combos], dtype=float)
            for i, c in enumerate(cols)}, combos

    def f(self, P, A, B, draws, cv, mcols):
        """log ratio of each draw, given the evidence and its M values."""
        lp = lambda T: P.walk({c: draws[c] for c in T}, cv)[0]
        base = lp(mcols) if mcols else 0.
        over = lambda S: lp(list(S) + list(mcols)) - base
        if set(A) == set(B):
            return -over(A)
        return over(A + B) - over(A) - over(B)

    def moments(self, w, P, A, B, cv, M, n, seed):
        """(mean, sd of one inner sample, sd of the mean over an outer
        sample, error of the reference)."""
        cols = list(dict.fromkeys(A + B)) + M
        # Other blocks' evidence without values changes nothing.
        if self.finite(w, cols):
            draws, combos = self.combos(w, cols)
            p = np.exp(P.walk(draws, cv)[0])
            if abs(p.sum() - 1) > 1e-6:
                raise Skip()
            with np.errstate(invalid='ignore'):
                f = np.where(p > 1e-250, self.f(P, A, B, draws, cv, M), 0.)
            mean = float((p * f).sum())
            var = float((p * (f - mean) ** 2).sum())
            # Between values of the marginalized evidence.
            groups = {}
            for i, x in enumerate(combos):
                groups.setdefault(x[len(cols) - len(M):], []).append(i)
            between = 0.
            for ix in groups.values():
                pg = p[ix].sum()
                if pg > 1e-250:
                    between += pg * ((p[ix] * f[ix]).sum() / pg - mean) ** 2
            top = float(np.abs(f - mean)[p > 1e-25].max())
            return mean, math.sqrt(var), math.sqrt(between), 0., top
        st = w.state
        st.rng.seed(seed)
        S = st.simulate(-1, list(cols), dict(cv), N=n)
        draws = {c: np.array([float(s[c]) for s in S]) for c in cols}
        for c in cols:
            if not np.isfinite(draws[c]).all() or \
                    np.abs(draws[c]).max() > 1e60:
                raise Skip()
            if w.types[c][0] in ('lognormal', 'exponential'):
                draws[c] = np.maximum(draws[c], 1e-300)
        _lp, U = P.walk(draws, cv, V=np.random.RandomState(
            (seed * 48271 + 11) % 2**31))
        p, _test, _which = pred.test_uniform(U)
        if p < 1e-10:
            raise Skip()
        f = self.f(P, A, B, draws, cv, M)
        if not np.isfinite(f).all():
            raise Skip()
        sd = float(f.std())
        # The share between values of the marginalized evidence is unknown:
        # all of it.
        return float(f.mean()), sd, sd if M else 0., sd / math.sqrt(n), \
            float(np.abs(f - f.mean()).max())

    def relevant(self, w, A, B, C):
        vs = set(w.state.Zv(c) for c in A) & set(w.state.Zv(c) for c in B)
        return [c for c in C if w.state.Zv(c) in vs]

    def after(self, w, op, before, result=None):
        pass

    def end(self, w, plan):
        rng = random.Random(plan['qseed'])
        for _ in range(plan['asks']):
            try:
                self.ask(w, rng)
            except Skip:
                w.ctx.log('skip')
        for _ in range(8):
            try:
                self.single(w, rng)
            except Skip:
                pass
        self.rejected(w, rng)
        if rng.random() < .5:
            try:
                self.composed(w, rng)
            except Skip:
                pass

    def composed(self, w, rng):
        """A model with other components hooked onto its columns.

        Only of queries which give every component its inputs, whose
        densities are not themselves estimates."""
        st, ctx = w.state, w.ctx
        fin = [c for c in w.cols() if self.arity(w, c) in (2, 3)]
        if not fin or w.conditional_dims():
            raise Skip()
        flips, parents = {}, {}
        for c in (901, 902, 903)[:rng.randint(1, 3)]:
            pool = fin + list(flips)
            ins = rng.sample(pool, min(len(pool), rng.choice([0, 1, 1, 1,
                2])))
            flips[c] = Flip(c, ins, [rng.choice([.1, .3, .5, .8, .95])
                for _ in range(5)], st.rng)
            parents[c] = ins
        order = list(flips)
        rng.shuffle(order)
        for c in order:
            st.compose_cgpm(flips[c])
        # Columns connected in any way are one block.
        block = {c: st.Zv(c) for c in w.cols()}
        for c in flips:
            block[c] = c
            for i in parents[c]:
                old, new = block[i], block[c]
                block = {k: new if b == old else b for k, b in block.items()}
        allc = fin + list(flips)

        def close(cols, given=()):
            cols = list(cols)
            for c in cols:
                cols += [i for i in parents.get(c, ()) if i not in cols
                    and i not in given]
            return cols
        pick = lambda k: rng.sample(allc, min(k, len(allc)))
        C = close(pick(rng.choice([0, 0, 1, 2])))
        M = [c for c in close(pick(rng.choice([0, 0, 0, 1])), C)
            if c not in C]
        CM = C + M
        A = [c for c in close(pick(rng.choice([1, 2])), CM) if c not in CM]
        if rng.random() < .5:
            B = list(A)
        else:
            B = [c for c in close(pick(rng.choice([1, 2])), CM)
                if c not in CM]
            if set(A) & set(B) and set(A) != set(B):
                B = [c for c in B if c not in A]
                if set(close(B, CM)) != set(B):
                    raise Skip()
        if not A or not B:
            raise Skip()
        sup = [range(self.arity(w, c) if c in fin else 2)
            for c in dict.fromkeys(A + B + M)]
        combos = list(itertools.product(*sup))
        if len(combos) > MOST:
            raise Skip()
        names = list(dict.fromkeys(A + B + M))
        draws = {c: np.array([float(x[i]) for x in combos])
            for i, c in enumerate(names)}
        cv = self.values(w, rng, [c for c in C if c in fin])
        cv.update({c: rng.randrange(2) for c in C if c in flips})
        P = pred.Pred(ref.Model(st, w.table, w.types))
        base = {c: x for c, x in cv.items() if c in fin}

        def lp(T):
            own = {c: draws[c] for c in T if c in fin}
            r = P.walk(own, base)[0] if own else np.zeros(len(combos))
            for c in T:
                if c in flips:
                    r = r + flips[c].logp(draws[c], {i: draws[i]
                        if i in draws else cv[i] for i in parents[c]})
            return r
        with np.errstate(invalid='ignore'):
            p = np.exp(lp(names))
            m = lp(M) if M else 0.
            if set(A) == set(B):
                f = m - lp(A + M)
            else:
                f = lp(A + B + M) - lp(A + M) - lp(B + M) + m
        if abs(p.sum() - 1) > 1e-6 or not np.isfinite(f).all():
            raise Skip()
        both = set(block[c] for c in A) & set(block[c] for c in B)
        ev = dict(cv)
        ev.update({c: None for c in M})
        desc = lambda: '%s of %r and %r given %r, of the composition of %r ' \
            'with components %r' % ('entropy' if set(A) == set(B) else 'mi',
            A, B, ev, {c: st.Zv(c) for c in w.cols()}, parents)
        # Blocks are estimated one by one: only the shared ones count.
        if not both:
            f = np.zeros(len(f))
        elif set(A) != set(B):
            f = sum(self.by_block(lp, both, block, A, B, M))
        seed = rng.randint(1, 10**8)
        for i in range(3):
            st.rng.seed(seed + i)
            got = float(st.mutual_information(list(A), list(B), dict(ev),
                T=1, N=1))
            ctx.log('composed', A, B, repr(ev), round(got, 7))
            ctx.check(np.abs(f - got).min() < 1e-5 * (1 + abs(got)),
                'composed', lambda: '%s over one draw is %r, which no draw '
                'gives: %r' % (desc(), got, sorted(set(np.round(f, 6)))[:30]))
        ctx.probe('composed' + ('-independent' if not both else ''))
        # Blocks without evidence to marginalize draw only once.
        if rng.random() < .3 and not (M and both - set(
                block[c] for c in M)):
            mean = float((p * f).sum())
            var = float((p * (f - mean) ** 2).sum())
            top = float(np.abs(f - mean).max())
            for n, k in ((40, 4.), (1500, 7.)):
                st.rng.seed(seed + n)
                t = n if M else None
                got = float(st.mutual_information(list(A), list(B), dict(ev),
                    T=t, N=1 if M else n))
                bound = k * math.sqrt(var / n) + (k * k / 3. * top / n
                    if k > 4 else 0.) + 1e-6 * (1 + abs(mean))
                if abs(got - mean) <= bound:
                    break
            else:
                ctx.check(False, 'composed-value', lambda: '%s is %r, the '
                    'model defines %r' % (desc(), got, mean))
            ctx.probe('composed-value')

    def by_block(self, lp, both, block, A, B, M):
        for v in sorted(both, key=str):
            a, b, m = [[c for c in s if block[c] == v] for s in (A, B, M)]
            yield lp(a + b + m) - lp(a + m) - lp(b + m) + (lp(m) if m else 0.)

    def single(self, w, rng):
        """An average over one draw is the value of one draw."""
        st, ctx = w.state, w.ctx
        A, B, C, M = self.query(w, rng)
        Zv = {c: st.Zv(c) for c in w.cols()}
        cv = self.values(w, rng, C)
        P = pred.Pred(ref.Model(st, w.table, w.types))
        sums = np.zeros(1)
        for v in sorted(set(Zv[c] for c in A) & set(Zv[c] for c in B)):
            a, b, m = [[c for c in s if Zv[c] == v] for s in (A, B, M)]
            cols = list(dict.fromkeys(a + b)) + m
            if not self.finite(w, cols):
                raise Skip()
            draws, _n = self.combos(w, cols)
            f = self.f(P, a, b, draws, cv, m)
            if len(sums) * len(f) > 20000:
                raise Skip()
            sums = (sums[:, None] + f[None, :]).ravel()
        ev = dict(cv)
        ev.update({c: None for c in M})
        st.rng.seed(rng.randint(1, 10**8))
        got = float(st.mutual_information(list(A), list(B), dict(ev), T=1,
            N=1))
        ctx.probe('single')
        ctx.log('single', A, B, repr(ev), round(got, 7))
        # -inf - -inf where a value has no density.
        if not np.isfinite(sums).all():
            return
        ctx.check(np.abs(sums - got).min() < 1e-5 * (1 + abs(got)), 'draw',
            lambda: '%s of %r and %r given %r (blocks %r) over one draw is '
            '%r, which no draw gives: %r' % (
                'entropy' if set(A) == set(B) else 'mi', A, B, ev, Zv, got,
                sorted(set(np.round(sums, 6)))[:30]))

    def ask(self, w, rng):
        st, ctx = w.state, w.ctx
        chk = ctx.check
        A, B, C, M = self.query(w, rng)
        cv = self.values(w, rng, C)
        P = pred.Pred(ref.Model(st, w.table, w.types))
        if cv and not np.isfinite(P.walk({c: [x] for c, x in cv.items()},
                {})[0]).all():
            raise Skip()
        N = rng.choice([1, 7, 60, 100, 300])
        T = rng.choice([3, 100, 300, 600]) if M else rng.choice([None, 5])
        slow = bool(w.conditional_dims())
        if slow:
            N = min(N, 60)
        most = 300 if slow else 2000
        if T and T * N > most:
            N = max(most // T, 1)
        defaults = not slow and rng.random() < .15
        # Given by value or without; in any order.
        ev = dict(cv)
        ev.update({c: None for c in M})
        ks = list(ev)
        rng.shuffle(ks)
        ev = {k: ev[k] for k in ks}
        Zv = {c: st.Zv(c) for c in w.cols()}
        # Estimated block by block.
        both = set(Zv[c] for c in A) & set(Zv[c] for c in B)
        seed = rng.randint(1, 10**8)
        snap = world.snapshot(st)
        given = list(A), list(B), dict(ev)

        def estimate(n, t, seed):
            st.rng.seed(seed)
            # No evidence is None as well as {}.
            e = ev if ev or seed % 2 else None
            if defaults and n is None:
                return st.mutual_information(A, B, e), 100, 100
            return st.mutual_information(A, B, e, T=t, N=n), t, n
        try:
            got, t, n = estimate(None if defaults and not M else N, T, seed)
        except Exception as e:
            if world.numeric(e) or 'rejection' in str(e):
                ctx.probe('numeric')
                raise Skip()
            raise
        kind = 'entropy' if set(A) == set(B) else 'mi'
        desc = lambda: '%s of %r and %r given %r (blocks %r, N=%r, T=%r)' % (
            kind, A, B, ev, Zv, n, t)
        chk(np.ndim(got) == 0 and np.isreal(got), 'number', lambda:
            '%s is %r' % (desc(), got))
        got = float(got)
        ctx.log(kind, A, B, repr(ev), round(got, 9) if abs(got) < 1e9 else 0)
        ctx.probe(kind + ('-marginalized' if M else '') + (
            '-given' if C else ''))
        d = core.differ(snap, world.snapshot(st), 1e-9, 1e-9)
        chk(d is None, 'changed', lambda: '%s changed the model: %s' % (
            desc(), d))
        chk(given == (A, B, ev), 'arguments', lambda: '%s changed its '
            'arguments' % desc())
        if not both:
            ctx.probe('independent')
            chk(abs(got) < 1e-9, 'independent', lambda: '%s of independent '
                'columns is %r' % (desc(), got))
        if not np.isfinite(got):
            # Overflow of a heavy tail.
            ctx.probe('overflow')
            raise Skip()
        # Reference, block by block.
        parts = []
        for v in sorted(both):
            a = [c for c in A if Zv[c] == v]
            b = [c for c in B if Zv[c] == v]
            mm = [c for c in M if Zv[c] == v]
            parts.append((a, b, mm))

        def z(got, n, t, size, k):
            mean = var = top = 0.
            for i, (a, b, mm) in enumerate(parts):
                mu, s1, s0, err, hi = self.moments(w, P, a, b, cv, mm, size,
                    seed + 17 + i)
                total = float(n) * (t if mm else 1)
                mean += mu
                var += err ** 2 + s1 ** 2 / total
                if mm:
                    var += s0 ** 2 / t
                # Bernstein's correction for a largest summand.
                top += hi / (t if mm else total)
            if not parts:
                return 0., 0.
            off = abs(got - mean)
            bound = k * math.sqrt(var) + (k * k / 3. * top if k > 4 else 0.)
            return off / (bound + 1e-6 * (1 + abs(mean))), mean
        ratio, mean = z(got, n, t, 300 if slow else 1000, 4.)
        if ratio > 1:
            # Once more, with more of everything.
            if M:
                t2, n2 = (500, 2) if slow else (5000, 2)
            else:
                n2, t2 = 500 if slow else max(4000, 20 * n), t
            got2, t2, n2 = estimate(n2, t2, seed + 1)
            r2, mean2 = z(float(got2), n2, t2, 2000 if slow else 10000, 7.)
            chk(r2 <= 1, 'value', lambda: '%s is %r, and %r with N=%r T=%r; '
                'the model defines %r' % (desc(), got, got2, n2, t2, mean2))
            ctx.probe('repeat')
        exact = all(self.finite(w, a + b + mm) for a, b, mm in parts)
        if parts:
            ctx.probe('exact' if exact else 'sampled')
        # Blocks add up, exactly so for a fixed number of random draws is not
        # promised: covered by the value.  Symmetry is.
        if rng.random() < .3:
            self.failing(w, rng, A, B, ev)

    def failing(self, w, rng, A, B, ev):
        """A draw that fails leaves the model as it was."""
        st, ctx = w.state, w.ctx
        sim = st.rng
        sim.seed(rng.randint(1, 10**6))
        snap = world.snapshot(st)
        sim.arm(rng.choice([1, 2, 3, 8, 20]))
        try:
            st.mutual_information(list(A), list(B), dict(ev), T=2, N=2)
        except Injected:
            ctx.probe('failed-draw')
            ctx.fault('failed-draw')
        except Exception as e:
            if not world.numeric(e):
                raise
        finally:
            sim.disarm()
        d = core.differ(snap, world.snapshot(st), 1e-9, 1e-9)
        ctx.check(d is None, 'changed', lambda: 'a failed query changed the '
            'model: %s' % (d,))

    def rejected(self, w, rng):
        st, ctx = w.state, w.ctx
        cols = w.cols()

        def rejects(name, *a):
            st.rng.seed(5)
            try:
                r = st.mutual_information(*a, T=2, N=2)
            except (ValueError, AssertionError, KeyError):
                ctx.probe('rejected')
                return
            ctx.check(False, 'accepted', lambda: '%s accepted: %r -> %.100r'
                % (name, a, r))
        c = rng.choice(cols)
        v = self.values(w, rng, cols)
        others = [d for d in cols if d != c]
        x = rng.choice([v[c], None])
        rejects('evidence on a target', [c], [c], {c: x})
        if others:
            d = rng.choice(others)
            rejects('evidence on a target', [c], [d], {c: x})
            rejects('evidence on a target', [d], [c], {c: x})
            rejects('overlapping targets', [c, d], [c])
            rejects('overlapping targets', [c], [d, c])
        if len(others) > 1:
            d, e = rng.sample(others, 2)
            rejects('overlapping targets', [c, d], [c, e])


PROP = P19()
