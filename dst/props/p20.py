"""P20: component models and generators draw from the density they report."""

import copy
import math
import random

import numpy as np
from scipy import stats

from .. import core, pred, ref, simrng, world
from . import p15

P_MIN = 1e-10
TOL = dict(rtol=1e-6, atol=1e-6)


class Law(object):
    """A mixture: log weights, and per component a function
    (variable, values so far incl. its own) -> (cdf, left cdf, log density)
    of arrays."""

    def __init__(self, lw, comps, masked=()):
        lw = np.asarray(lw, dtype=float)
        self.lw = lw - np.logaddexp.reduce(lw)
        self.comps = comps

    def walk(self, draws, order, V=None):
        n = len(draws[order[0]])
        lw = np.tile(self.lw, (n, 1))
        total, U, sofar = np.zeros(n), {}, {}
        for q in order:
            x = np.asarray(draws[q], dtype=float)
            out = [c(q, x, sofar) for c in self.comps]
            F, L, l = [np.array([np.broadcast_to(o[j], (n,))
                for o in out]).T for j in range(3)]
            w = np.exp(lw)
            if V is not None:
                hi, lo = (w * F).sum(axis=1), (w * L).sum(axis=1)
                # One number per draw, where the outcome is an atom.
                U[q] = lo + V.rand(n) * (hi - lo)
            lw = lw + l
            norm = np.logaddexp.reduce(lw, axis=1)
            total = total + norm
            lw = lw - np.where(np.isfinite(norm), norm, 0.)[:, None]
            sofar[q] = x
        return total, U


def gauss(m, s):
    def f(x):
        z = (x - m) / s
        F = stats.norm.cdf(z)
        return F, F, stats.norm.logpdf(z) - math.log(s)
    return f


def interval(lo, hi):
    """Uniform on [lo, hi] (arrays)."""
    def f(x):
        F = np.clip((x - lo) / (hi - lo), 0, 1)
        slack = 1e-9
        ok = (x >= lo - slack) & (x <= hi + slack)
        return F, F, np.where(ok, -np.log(hi - lo + 0 * x), -np.inf)
    return f


def atom(v):
    def f(x):
        with np.errstate(divide='ignore'):
            return (x >= v) * 1., (x > v) * 1., np.log((x == v) * 1.)
    return f


def single(fs):
    """A component of independent variables."""
    return lambda q, x, sofar: fs[q](x)


# --------------------------------------------------------------------------
# Subjects: a component, its rows, and what it should say.

class Subject(object):
    """What a simulation needs to know of a component."""

    variables = ()      # those it can be asked about
    most_given = 0      # how many may be evidence
    dense = True        # reports densities

    def __init__(self, spec, seed):
        self.spec = spec
        self.rows = {}

    def levels(self, q):
        """Number of categories, or None."""
        return None

    def inputs(self, us):
        return None

    def settle(self, op):
        """One step of history."""

    def rowids(self):
        return [-1, -1, None, 10**6]

    def law(self, row, T, C, y):
        raise NotImplementedError

    def simulate(self, row, T, C, y, N):
        return self.m.simulate(row, T, C, y, N)

    def logpdf(self, row, x, C, y):
        return p15.flat(self.m.logpdf(row, x, C, y))

    def askable(self, T, C):
        return True

    def order(self, T):
        return list(T)

    def seen(self, row):
        return row in self.rows

    def bad(self, rng, T, C, y):
        """(what, targets, constraints, inputs) of impossible queries."""
        out = []
        if len(self.variables) > 1 and self.most_given:
            q = rng.choice(T)
            out.append(('a target that is evidence', T,
                {**C, q: self.value(q, .3)}, y))
            out.append(('an unknown variable as evidence', T,
                {**C, 9999: 1.}, y))
        if y is None:
            out.append(('inputs', T, C, {9998: 1.}))
        return out

    def outside(self, q, u):
        """A value without density, or None."""
        k = self.levels(q)
        return None if k is None else [float(k), -1., .5, k + 3.][int(4 * u)]


class FromKind(Subject):
    """The components of P15, with its histories."""

    def __init__(self, spec, seed):
        Subject.__init__(self, spec, seed)
        cls = p15.Primitive if spec['kind'] == 'prim' \
            else p15.KINDS[spec['kind']]
        if spec['kind'] == 'crp':
            # Draws can be made to fail.
            pass
        cls = type('Sim' + cls.__name__, (cls,),
            dict(make_rng=simrng.SimRng))
        self.kind = cls(spec, seed)
        self.m, self.rng = self.kind.m, self.kind.rng
        self.fitted = None
        self.forest = 0

    def settle(self, op):
        o = op['op']
        if o == 'obs':
            r = op['i'] * 7 if op['s'] % 2 else len(self.rows)
            if len(self.rows) >= 12 or r in self.rows:
                return False
            obs = self.kind.obs(op['u'])
            self.m.incorporate(r, *copy.deepcopy(obs))
            self.rows[r] = obs
        elif o == 'uninc':
            if not self.rows:
                return False
            r = list(self.rows)[op['i'] % len(self.rows)]
            self.m.unincorporate(r)
            del self.rows[r]
        elif o == 'fix':
            if self.spec['kind'] == 'forest':
                self.forest += 1
                if self.forest > 2:
                    return False
            if not self.kind.fixes(self.m, self.rows,
                    ['params', 'hypers'][op['i'] % 2]):
                return False
            self.fitted = dict(self.rows)
        elif o == 'save':
            if not self.kind.saves:
                return False
            meta = world.json_trip(self.m.to_metadata())
            self.m = self.kind.m = type(self.m).from_metadata(
                meta, rng=self.rng)
        return True

    def rowids(self):
        return [-1, -1, None, 10**6] + list(self.rows)[:3]


class Primitive(FromKind):

    def __init__(self, spec, seed):
        FromKind.__init__(self, spec, seed)
        self.variables = [spec['id']]
        self.t, self.d = spec['cctype'], spec['distargs']

    def value(self, q, u):
        return world.cell(self.t, self.d, u)

    def outside(self, q, u):
        return world.bad_cell(self.t, self.d, u)

    def levels(self, q):
        if self.t == 'bernoulli':
            return 2
        if self.t == 'categorical':
            return int(self.d['k'])
        return None

    def known(self, row):
        return self.rows[row][0][self.variables[0]]

    def law(self, row, T, C, y):
        q = T[0]
        if self.t in world.COLLAPSED:
            f = pred.crit(self.t, self.d, self.m.get_hypers(),
                [o[0][q] for o in self.rows.values()])
        else:
            f = pred.param(self.t, self.d, self.m)
        return Law([0.], [single({q: f})])


class Chain(FromKind):

    def __init__(self, spec, seed):
        FromKind.__init__(self, spec, seed)
        self.variables = [spec['id']]

    def value(self, q, u):
        return int(5 * u)

    def known(self, row):
        return self.rows[row][0][self.variables[0]]

    def law(self, row, T, C, y):
        n = {}
        for o in self.rows.values():
            k = o[0][T[0]]
            n[k] = n.get(k, 0.) + 1
        K = max(n) + 1 if n else 0
        n[K] = self.m.get_hypers()['alpha']
        p = np.zeros(K + 1)
        for k in n:
            p[k] = n[k]
        p /= p.sum()
        tab = pred.table(p)
        new = p[K]

        def f(x):
            F, L, l = tab(x)
            return F, L, l
        # Any table without customers is a new one.
        f.new = lambda x: math.log(new) if x not in n or x == K else None
        return Law([0.], [single({T[0]: f})])

    def logpdf_law(self, law, row, x, C, y):
        return None


class Regression(FromKind):

    def __init__(self, spec, seed):
        FromKind.__init__(self, spec, seed)
        self.variables = [spec['id']]
        self.which = spec['kind']
        if self.which == 'ols':
            self.dense = True

    def value(self, q, u):
        return self.kind.x(u)

    def levels(self, q):
        return self.spec['levels'] if self.which == 'forest' else None

    def inputs(self, us):
        return self.kind.y(us)

    def known(self, row):
        return self.rows[row][0][self.variables[0]]

    def design(self, ys):
        return np.array([ref.dummy([y[i] for i in self.spec['inputs']],
            self.spec['k']) for y in ys])

    def bad(self, rng, T, C, y):
        i = rng.choice(list(y))
        return [('a missing input', T, C,
            {j: v for j, v in y.items() if j != i}),
            ('an input that is nan', T, C, {**y, i: float('nan')}),
            ('its output as an input', T, C, {**y, T[0]: 1.}),
            ('evidence', T, {9999: 1.}, y)]

    def law(self, row, T, C, y):
        q = T[0]
        if self.which == 'linreg':
            h = self.m.get_hypers()
            D = self.design([y])[0]
            P = np.eye(len(D))
            loc, an, bn = 0., h['a'], h['b']
            if self.rows:
                X = self.design([o[1] for o in self.rows.values()])
                x = np.array([o[0][q] for o in self.rows.values()])
                P = P + X.T.dot(X)
                w = np.linalg.solve(P, X.T.dot(x))
                loc = D.dot(w)
                bn = bn + .5 * (x.dot(x) - w.dot(P).dot(w))
                an = an + len(x) / 2.
            s2 = bn / an * (1 + D.dot(np.linalg.solve(P, D)))
            t = stats.t(2 * an, loc=loc, scale=math.sqrt(s2))
            f = lambda x: (t.cdf(x), t.cdf(x), t.logpdf(x))
        elif self.which == 'forest':
            K = self.spec['levels']
            ys = [y[i] for i in sorted(y)]
            ls, _ = ref.uncollapsed('random_forest', self.m, dict(k=K),
                list(range(K)), [ys] * K)
            p = np.exp(ls)
            f = pred.table(p / p.sum())
        else:
            if not self.fitted:
                return None
            old = list(self.fitted.values())
            X = self.design([o[1] for o in old])
            x = np.array([o[0][q] for o in old])
            w, _r, rank, _s = np.linalg.lstsq(X, x, rcond=None)
            # Indicators of all categories sum to the intercept.
            full = X.shape[1] - sum(1 for k in self.spec['k'] if k)
            if rank < full or len(old) <= full + 1:
                return None
            sd = math.sqrt(((x - X.dot(w)) ** 2).mean())
            if sd < 1e-3:
                return None
            mu = float(self.design([y])[0].dot(w))
            f = gauss(mu, sd)
            f.mean = mu
        law = Law([0.], [single({q: f})])
        law.mean = getattr(f, 'mean', None)
        return law


class Rows(FromKind):

    most_given = 3

    def __init__(self, spec, seed):
        FromKind.__init__(self, spec, seed)
        self.variables = list(spec['outputs'])
        self.which = spec['kind']
        self.K = dict(zip(spec['outputs'], spec['k']))

    def value(self, q, u):
        j = self.spec['outputs'].index(q)
        k = self.K[q]
        if k:
            v = int(u * k)
            return float(v) if int(1000 * u) % 2 else v
        return round(10 * u - 5, 3)

    def levels(self, q):
        return self.K[q]

    def evidence(self, row, T, C):
        C = dict(C)
        if row in self.rows:
            for q, v in self.rows[row][0].items():
                if q not in T and q not in C:
                    C[q] = v
        return C

    def complete(self, qs):
        return [o[0] for o in self.rows.values()
            if all(q in o[0] for q in qs)]

    def law(self, row, T, C, y):
        return getattr(self, 'law_' + self.which)(T, self.evidence(row, T, C))

    def law_kde(self, T, C):
        rows = self.complete(list(T) + list(C))
        if not rows:
            return None
        bw = dict(zip(self.spec['outputs'], self.m.get_params()['bw']))
        if any(b < 1e-6 for b in bw.values()):
            return None

        def kern(q, v):
            k, b = self.K[q], bw[q]
            if not k:
                return gauss(v, b)
            p = np.full(k, b / (k - 1.))
            p[int(v)] = 1 - b
            return pred.table(p)
        lw = [sum(float(kern(q, o[q])(np.array(C[q]))[2]) for q in C)
            for o in rows]
        if max(lw) < -600:
            return None
        return Law(lw, [single({q: kern(q, o[q]) for q in T}) for o in rows])

    def code(self, q, v):
        k = self.K[q]
        if not k:
            return [float(v)]
        return [1. if v == j else 0. for j in range(k - 1)]

    def nearest(self, D, p, n, lots=False):
        d = np.sqrt(((D - p) ** 2).sum(axis=1))
        o = np.argsort(d, kind='stable')
        if n < len(o) and d[o[n]] - d[o[n - 1]] < 1e-7 * (1 + d[o[n]]):
            # Ties: between equals it does not matter; otherwise lots are
            # drawn, and who is in when all are tied is clear.
            tied = [i for i in range(len(d))
                if abs(d[i] - d[o[n - 1]]) < 1e-7 * (1 + d[o[n]])]
            if (D[tied] == D[tied[0]]).all() and not lots:
                return o[:n]
            if lots and o[0] in tied:
                return np.array(tied)
            return None
        return o[:n]

    def law_knn(self, T, C):
        if not C:
            return self.fallback(T)
        rows = self.complete(list(T) + list(C))
        K = self.spec['K']
        M = self.spec['M'] or K
        if len(rows) < K or len(self.rows) < K:
            return None
        qs = list(C)
        De = np.array([sum((self.code(q, o[q]) for q in qs), [])
            for o in rows])
        Da = np.array([sum((self.code(q, o[q]) for q in qs + list(T)), [])
            for o in rows])
        near = self.nearest(De, np.array(sum((self.code(q, C[q])
            for q in qs), [])), K, True)
        if near is None:
            return None
        comps = []
        for i in near:
            loc = self.nearest(Da, Da[i], min(M, K))
            if loc is None:
                return None
            fs = {}
            for q in T:
                v = np.array([rows[j][q] for j in loc], dtype=float)
                if self.K[q]:
                    p = np.bincount(v.astype(int), minlength=self.K[q])
                    fs[q] = pred.table(p / float(len(v)))
                else:
                    fs[q] = gauss(v.mean(), max(v.std(), .01))
            comps.append(single(fs))
        law = Law(np.zeros(len(comps)), comps)
        if len(near) > K:
            law.undensed = law.lots = True
        return law

    def fallback(self, T):
        """Without evidence, an observed row lends its other variables."""
        outs = self.spec['outputs']
        rest = [q for q in outs if q not in T]
        first = [] if rest else [T[0]]
        lend = rest or first
        if not rest and len(T) < 2:
            return None
        lw, comps = [], []
        rows = self.complete(lend)
        for o in rows:
            law = self.law_knn([q for q in T if q not in first],
                {q: o[q] for q in lend})
            if law is None:
                return None
            for w, c in zip(law.lw, law.comps):
                lw.append(w)
                comps.append(lambda q, x, s, c=c, o=o:
                    atom(o[q])(x) if q in first else c(q, x, s))
        if not comps:
            return None
        law = Law(lw, comps)
        law.undensed = True
        return law

    def law_factor(self, T, C):
        m = self.m
        L, outs = self.spec['L'], self.spec['outputs']
        D = len(outs) - L
        W, Psi, mux = np.array(m.W), np.array(m.Psi), np.array(m.mux)
        # Factors come after the observed variables.
        mu = np.concatenate([mux, np.zeros(L)])
        S = np.zeros((D + L, D + L))
        S[:D, :D] = W.dot(W.T) + Psi
        S[:D, D:] = W
        S[D:, :D] = W.T
        S[D:, D:] = np.eye(L)
        law = gaussian(mu, S, {q: i for i, q in enumerate(outs)}, T, C)
        return law


def gaussian(mu, S, at, T, C):
    """The law of T given C under a joint Gaussian."""
    e = list(C)
    I = [at[q] for q in e]
    if I and np.linalg.cond(S[np.ix_(I, I)]) > 1e6:
        return None
    J = I + [at[q] for q in T]
    if np.linalg.cond(S[np.ix_(J, J)]) > 1e6:
        return None

    def comp(q, x, sofar):
        g = I + [at[t] for t in sofar]
        vals = [np.full(len(x), float(C[t])) for t in e] + list(
            sofar.values())
        i = at[q]
        if g:
            A = np.linalg.solve(S[np.ix_(g, g)], S[g, i])
            m = mu[i] + sum(a * (v - mu[j]) for a, v, j in zip(A, vals, g))
            s = math.sqrt(S[i, i] - S[i, g].dot(A))
        else:
            m, s = mu[i], math.sqrt(S[i, i])
        return gauss(m, s)(x)
    return Law([0.], [comp])


# --------------------------------------------------------------------------
# Components without rows.

class Dummy(Subject):

    path = None

    def __init__(self, spec, seed):
        Subject.__init__(self, spec, seed)
        self.rng = simrng.SimRng(seed)
        self.variables = list(spec['outputs'])
        self.ins = list(spec['inputs'])
        self.m = self.build()
        self.saves = hasattr(self.m, 'to_metadata')

    def cls(self):
        return p15.load(self.path)

    def build(self):
        return self.cls()(list(self.variables), list(self.ins),
            rng=self.rng, **self.spec.get('kw', {}))

    def settle(self, op):
        if op['op'] == 'obs':
            if op['i'] in self.rows or not hasattr(self.m, 'rowids'):
                return False
            y = self.inputs(op['u'])
            self.m.incorporate(op['i'], {q: self.value(q, .4)
                for q in self.variables}, y)
            self.rows[op['i']] = y
        elif op['op'] == 'uninc':
            if not self.rows:
                return False
            r = list(self.rows)[op['i'] % len(self.rows)]
            self.m.unincorporate(r)
            del self.rows[r]
        elif op['op'] == 'save' and hasattr(self.m, 'to_metadata') \
                and not self.rows:
            self.m = type(self.m).from_metadata(
                world.json_trip(self.m.to_metadata()), rng=self.rng)
        else:
            return False
        return True

    def bad(self, rng, T, C, y):
        return []


class TwoWay(Dummy):
    path = 'cgpm.dummy.twoway.TwoWay'
    shape = (1, 1)

    def inputs(self, us):
        u = us[0] if us[0] is not None else .3
        return {self.ins[0]: [0, 1, 0., 1.][int(4 * u)]}

    def value(self, q, u):
        return [0, 1, 0., 1.][int(4 * u)]

    def levels(self, q):
        return 2

    def law(self, row, T, C, y):
        p = [[.9, .1], [.3, .7]][int(y[self.ins[0]])]
        return Law([0.], [single({T[0]: pred.table(np.array(p))})])

    def bad(self, rng, T, C, y):
        return [('an input that is no category', T, C, {self.ins[0]: .5}),
            ('an input that is no category', T, C, {self.ins[0]: 2})]


class FourWay(Dummy):
    path = 'cgpm.dummy.fourway.FourWay'
    shape = (1, 2)

    def inputs(self, us):
        us = [.3 if u is None else u for u in us]
        return {i: round(8 * us[j] - 4, 2) or .5
            for j, i in enumerate(self.ins)}

    def value(self, q, u):
        return int(4 * u)

    def levels(self, q):
        return 4

    def law(self, row, T, C, y):
        a, b = y[self.ins[0]], y[self.ins[1]]
        p = np.array([[.7, .1, .05, .05], [.1, .8, .1, .1],
            [.1, .15, .65, .1], [.1, .05, .1, .75]][
                (0 if a > 0 else 1) + (0 if b > 0 else 2)])
        return Law([0.], [single({T[0]: pred.table(p / p.sum())})])


class PieceWise(Dummy):
    path = 'cgpm.dummy.piecewise.PieceWise'
    shape = (2, 1)
    most_given = 1

    def inputs(self, us):
        u = us[0] if us[0] is not None else .3
        return {self.ins[0]: round(10 * u - 5, 2)}

    def value(self, q, u):
        return int(2 * u) if q == self.variables[1] else round(
            12 * u - 6, 3)

    def levels(self, q):
        return 2 if q == self.variables[1] else None

    def outside(self, q, u):
        return None

    def law(self, row, T, C, y):
        kw = self.spec['kw']
        s = 1. if kw['sigma'] is None else kw['sigma']
        f = .5 if kw['flip'] is None else kw['flip']
        x, z = self.variables
        v = y[self.ins[0]]
        lw = np.log([f, 1 - f])
        comps = []
        for j in (0, 1):
            g = gauss(v + 2 * j - 1, s)
            if x in C:
                lw[j] += float(g(np.array(float(C[x])))[2])
            if z in C and C[z] != j:
                lw[j] = -np.inf
            comps.append(single({x: g, z: pred.table(
                np.array([1. - j, 1. * j]))}))
        return Law(lw, comps)

    def bad(self, rng, T, C, y):
        return [('no inputs', T, C, {}), ('an unknown input', T, C,
            {**y, 777: 1.})]


class Troll(Dummy):
    path = 'cgpm.dummy.trollnormal.TrollNormal'
    shape = (1, 2)

    def inputs(self, us):
        us = [.3 if u is None else u for u in us]
        return {i: round(8 * us[j] - 4, 2) for j, i in enumerate(self.ins)}

    def value(self, q, u):
        return round(12 * u - 6, 3)

    def law(self, row, T, C, y):
        return Law([0.], [single({T[0]: gauss(y[self.ins[0]],
            abs(y[self.ins[1]]) + 1)})])

    def bad(self, rng, T, C, y):
        return [('a missing input', T, C, {self.ins[0]: 1.})]


class Plane(Subject):
    """The two-variable generators."""

    most_given = 1
    path = None

    def __init__(self, spec, seed):
        Subject.__init__(self, spec, seed)
        self.rng = simrng.SimRng(seed)
        self.variables = list(spec['outputs'])
        self.n = spec['noise']
        self.m = p15.load(self.path)(outputs=list(self.variables),
            noise=self.n, rng=self.rng)

    def value(self, q, u):
        return round(3 * u - 1.5, 3)

    def bad(self, rng, T, C, y):
        return []

    def settle(self, op):
        return False


class Dots(Plane):
    path = 'cgpm.uncorrelated.dots.Dots'

    def law(self, row, T, C, y):
        return mixture(self, T, C, [{self.variables[0]: gauss(a, self.n),
            self.variables[1]: gauss(b, self.n)}
            for a in (-1, 1) for b in (-1, 1)])


def mixture(self, T, C, comps):
    lw = [sum(float(f[q](np.array(float(C[q])))[2]) for q in C)
        for f in comps]
    return Law(lw, [single(f) for f in comps])


class Linear(Plane):
    path = 'cgpm.uncorrelated.linear.Linear'
    r = (1,)

    def law(self, row, T, C, y):
        c = 1 - self.n
        at = {q: i for i, q in enumerate(self.variables)}
        laws = [gaussian(np.zeros(2), np.array([[1, s * c], [s * c, 1]]),
            at, T, C) for s in self.r]
        if any(l is None for l in laws):
            return None
        # The evidence does not tell the arms apart: same marginal.
        return Law(np.zeros(len(laws)), [l.comps[0] for l in laws])


class XCross(Linear):
    path = 'cgpm.uncorrelated.xcross.XCross'
    r = (1, -1)

    def askable(self, T, C):
        return len(T) == 2

    def draws(self, T, C):
        return not C


class Ring(Plane):
    path = 'cgpm.uncorrelated.ring.Ring'
    dense = False

    def askable(self, T, C):
        return not C

    def uniforms(self, D, C, y, V):
        a, b = self.variables
        if a not in D or b not in D:
            for q in D:
                if np.abs(D[q]).max() > 1 + 1e-9:
                    return 'a point off the ring'
            return None
        r = np.hypot(D[a], D[b])
        th = np.arctan2(D[b], D[a]) / (2 * np.pi) + .5
        if r.max() > 1 + 1e-9 or r.min() < 1 - self.n - 1e-9:
            return 'a point off the ring: radius %r' % [r.min(), r.max()]
        return {'angle': th, 'radius': (r - 1 + self.n) / self.n}


class Directed(Plane):
    """x ~ U(lo, hi), y given x."""
    lo, hi = -1., 1.

    def value(self, q, u):
        return round(self.lo * 1.1 + (self.hi - self.lo) * 1.1 * u, 3) \
            if q == self.variables[0] else round(2.6 * u - 1.3, 3)

    def askable(self, T, C):
        # y alone and x given y are estimates.
        x, y = self.variables
        return x in T and not C or T == [y] and x in C

    def order(self, T):
        return [q for q in self.variables if q in T]

    def law(self, row, T, C, y):
        a, b = self.variables
        f = interval(np.array(self.lo), np.array(self.hi))
        if a in C and not self.lo <= C[a] <= self.hi:
            return None

        def comp(j):
            def g(q, x, sofar):
                if q == a:
                    return f(x)
                return self.given(j, sofar[a] if a in sofar
                    else np.full(len(x), float(C[a])), x)
            return g
        return Law(np.zeros(self.arms), [comp(j) for j in range(self.arms)])


class Parabola(Directed):
    path = 'cgpm.uncorrelated.parabola.Parabola'
    arms = 2

    def given(self, j, x, y):
        m = x ** 2 if j == 0 else -x ** 2
        return interval(m - self.n, m + self.n)(y)


class Sin(Directed):
    path = 'cgpm.uncorrelated.sin.Sin'
    lo, hi = -1.5 * math.pi, 1.5 * math.pi
    arms = 1

    def given(self, j, x, y):
        c = np.cos(x)
        return interval(np.where(c < 0, c, c - self.n),
            np.where(c < 0, c + self.n, c))(y)


class Diamond(Directed):
    path = 'cgpm.uncorrelated.diamond.Diamond'
    arms = 2
    dense = False

    def given(self, j, x, y):
        h = 1 - np.abs(x)       # half height at x
        n = self.n
        eps = 1e-12
        if j == 0:              # upper edge, downward noise
            F = np.clip(1 - (h - y) / n, 0, 1)
            end = np.abs(y + h) <= eps
            L = np.where(end, 0., F)
        else:
            F = np.clip((y + h) / n, 0, 1)
            end = np.abs(y - h) <= eps
            L = np.clip((y + h) / n, 0, 1)
            F = np.where(end, 1., F)
        F = np.where(y >= h, 1., F)
        ok = np.abs(y) <= h + 1e-9
        return F, np.where(y < -h - eps, 0, L), np.where(ok, 0., -np.inf)


class Line(Plane):
    """UniformX."""
    most_given = 0

    def __init__(self, spec, seed):
        Subject.__init__(self, spec, seed)
        self.rng = simrng.SimRng(seed)
        self.variables = spec['outputs'][:1]
        self.lo, self.hi = spec['range']
        self.m = p15.load('cgpm.uncorrelated.uniformx.UniformX')(
            outputs=list(self.variables), low=self.lo, high=self.hi,
            rng=self.rng)

    def value(self, q, u):
        return round(self.lo + (self.hi - self.lo) * (1.2 * u - .1), 3)

    def law(self, row, T, C, y):
        return Law([0.], [single({T[0]: interval(np.array(self.lo),
            np.array(self.hi))})])


SUBJECTS = dict(prim=Primitive, crp=Chain, linreg=Regression, ols=Regression,
    forest=Regression, knn=Rows, kde=Rows, factor=Rows, twoway=TwoWay,
    fourway=FourWay, piecewise=PieceWise, troll=Troll, dots=Dots,
    linear=Linear, xcross=XCross, ring=Ring, parabola=Parabola, sin=Sin,
    diamond=Diamond, uniform=Line)
DUMMIES = ['twoway', 'fourway', 'piecewise', 'troll']
PLANES = ['dots', 'linear', 'xcross', 'ring', 'parabola', 'sin', 'diamond',
    'uniform']
ROWS = ['knn', 'kde', 'factor']


def gen_spec(rng):
    kind = rng.choice(['prim'] * 5 + ROWS * 4 + ['linreg', 'linreg', 'ols',
        'crp', 'forest'] + DUMMIES + PLANES)
    if kind == 'prim':
        t = rng.choice(world.COLLAPSED + world.UNCOLLAPSED)
        return dict(kind=kind, cctype=t, id=rng.randint(0, 20),
            distargs=world.gen_distargs(rng, t))
    if kind in DUMMIES:
        o, i = SUBJECTS[kind].shape
        ids = rng.sample(range(30), o + i)
        s = dict(kind=kind, outputs=ids[:o], inputs=ids[o:])
        if kind == 'piecewise':
            s['kw'] = dict(sigma=rng.choice([None, .5, 1., 2.5]),
                flip=rng.choice([None, .2, .5, .85]))
        return s
    if kind in PLANES:
        lo = rng.choice([-2., 0., 1.])
        return dict(kind=kind, outputs=rng.sample(range(30), 2),
            noise=rng.choice([.05, .1, .2, .5, .9]),
            range=[lo, lo + rng.choice([.5, 1., 4.])])
    while True:
        s = p15.gen_spec(rng)
        if s['kind'] == kind:
            return s


class P20(core.Prop):
    id = 'P20'
    runs = {'quick': 4000, 'thorough': 200000}
    wall = {'quick': 40., 'thorough': 780.}
    real = ['cgpm.primitives.*', 'cgpm.regressions.*', 'cgpm.knn.mvknn',
        'cgpm.kde.mvkde', 'cgpm.factor.factor', 'cgpm.dummy.*',
        'cgpm.uncorrelated.*', 'cgpm.network.importance',
        'cgpm.utils.mvnormal', 'cgpm.utils.general', 'scikit-learn']
    stub = []
    rule = ('one evaluation = one simulated history of one component model '
        'with queries and seeded batches of draws; distinct = distinct '
        'event-log digests with at least two operations')
    assumptions = ['the law of each component is recomputed in closed form '
        'from the rows it holds and its learned parameters (bandwidths, '
        'loadings, forest)',
        'nearest-neighbour queries with tied distances, and evidence for '
        'which a generator only estimates the density, are not judged',
        'draws are judged by the Rosenblatt transform at p < 1e-10 per test']

    def prepare(self):
        p15.PROP.prepare()
        for s in SUBJECTS.values():
            if getattr(s, 'path', None):
                p15.load(s.path)
        p15.load('cgpm.uncorrelated.uniformx.UniformX')

    def gen(self, rng, tier):
        spec = gen_spec(rng)
        missing = rng.choice([0., 0., .15, .4])
        kinds = rng.choice([['obs'] * 4 + ['fix', 'save'],
            ['obs'] * 3 + ['uninc'], ['obs'] * 4 + ['uninc', 'fix',
                'fail', 'save']])
        ops = []
        if spec['kind'] in ROWS + ['linreg', 'ols', 'forest']:
            for _ in range(rng.randint(2, 7)):
                ops.append('obs')
        ops += [rng.choice(kinds + ['ask', 'ask', 'fail'])
            for _ in range(rng.randint(1, 16 if tier == 'thorough' else 9))]
        return dict(spec=spec, seed=rng.randint(1, 10**6),
            n=rng.choice([300, 300, 600] if tier == 'quick'
                else [300, 600, 2000]),
            sim=rng.randint(1, 10**9), form=rng.choice(['many', 'single',
                'few', 'few']),
            ops=[dict(op=o, s=rng.randint(1, 10**6), i=rng.randrange(100),
                u=[world.gen_u(rng, missing) for _ in range(5)])
                for o in ops])

    # ----------------------------------------------------------------------
    def query(self, s, rng):
        vs = list(s.variables)
        for _ in range(20):
            pick = rng.sample(vs, len(vs))
            nt = rng.randint(1, len(vs))
            ne = rng.randint(0, min(s.most_given, len(vs) - nt))
            T, E = pick[:nt], pick[nt:nt + ne]
            if not E and s.most_given and len(vs) > 1 and rng.random() < .5:
                continue
            if s.askable(T, E):
                break
        else:
            return None
        us = [rng.randint(0, 999) / 1000. for _ in range(12)]
        C = {q: s.value(q, us[j]) for j, q in enumerate(E)}
        y = s.inputs(us[5:])
        return T, C, y

    def execute(self, plan, ctx):
        spec = plan['spec']
        s = SUBJECTS[spec['kind']](spec, plan['seed'])
        s.name = spec.get('cctype') or spec['kind']
        for op in plan['ops']:
            s.rng.seed(op['s'])
            rng = random.Random(op['s'])
            o = op['op']
            if o in ('ask', 'fail'):
                getattr(self, o)(s, rng, op, ctx)
            elif not s.settle(op):
                continue
            ctx.ops += 1
            ctx.log(o, sorted(s.rows))
            ctx.probe('%s-%s' % (o, s.name))
            ctx.state((s.name, len(s.rows), o))
        rng = random.Random(plan['sim'])
        for _ in range(3):
            self.ask(s, rng, plan, ctx)
        self.draw(s, rng, plan, ctx)

    # ----------------------------------------------------------------------
    def ask(self, s, rng, op, ctx):
        """Densities against the law, in any naming order; refusals."""
        q = self.query(s, rng)
        if q is None:
            return
        T, C, y = q
        row = rng.choice(s.rowids())
        if s.name == 'chinese' and s.seen(row):
            return
        self.refusals(s, rng, T, C, y, ctx)
        if not s.dense or (isinstance(s, FromKind) and s.seen(row)
                and len(s.variables) == 1):
            return
        law = s.law(row, T, C, y)
        if law is None or getattr(law, 'undensed', False):
            return
        x = {t: s.value(t, rng.randint(0, 999) / 1000.) for t in T}
        want = float(law.walk({t: np.array([float(v)])
            for t, v in x.items()}, s.order(T))[0][0])
        if isinstance(s, Chain):
            f = law.comps[0].__closure__
            want = self.table(s, x[T[0]])
        given = copy.deepcopy((x, C, y))
        got = s.logpdf(row, dict(x), dict(C) or None, y)
        ctx.check(core.close(got, want, **TOL), 'density', lambda: 'a %s '
            'holding rows %r reports log density %r of %r given %r, inputs '
            '%r, row %r; its law has %r' % (s.name, s.rows, got, x, C, y,
                row, want))
        ks, es = list(x), list(C)
        rng.shuffle(ks), rng.shuffle(es)
        x2, C2 = {k: x[k] for k in ks}, {k: C[k] for k in es}
        y2 = None if y is None else dict(sorted(y.items(),
            key=lambda t: rng.random()))
        if isinstance(s, Dummy):
            y2 = y
        again = s.logpdf(row, x2, C2, y2)
        ctx.check(core.close(got, again, 1e-9, 1e-9), 'order', lambda: 'a %s '
            'reports %r for %r given %r, inputs %r; but %r in another naming '
            'order' % (s.name, got, x, C, y, again))
        ctx.check((x, C, y) == given, 'argument-mutated',
            lambda: 'logpdf of a %s changed its arguments' % s.name)
        ctx.log('density', s.name, len(T), len(C), '%.6f' % want)
        ctx.probe('density-' + s.name)
        self.normal(s, rng, row, x, C, y, ctx)

    def table(self, s, x):
        n = {}
        for o in s.rows.values():
            k = o[0][s.variables[0]]
            n[k] = n.get(k, 0.) + 1
        a = s.m.get_hypers()['alpha']
        return math.log(n.get(x, a) / (len(s.rows) + a))

    def normal(self, s, rng, row, x, C, y, ctx):
        """Outside the categories there is no density; within them, the sum
        is the density of the rest."""
        for t in x:
            u = rng.random()
            v = s.outside(t, u)
            if v is not None:
                got = p15.ask(lambda: s.logpdf(row, {**x, t: v},
                    dict(C) or None, y))
                ctx.check(got == -math.inf or isinstance(got, tuple),
                    'support', lambda: 'a %s reports log density %r of %r, '
                        'which it cannot produce' % (s.name, got, {t: v}))
        cats = [t for t in x if s.levels(t)]
        if not cats:
            return
        t = rng.choice(cats)
        rest = {k: v for k, v in x.items() if k != t}
        if rest and s.name == 'knn':
            return
        # Rows without this variable count towards the rest only.
        if rest and isinstance(s, Rows):
            need = list(x) + list(s.evidence(row, x, C))
            less = [k for k in need if k != t]
            if len(s.complete(need)) != len(s.complete(less)):
                return
            if row in s.rows and t in s.rows[row][0]:
                return
        tot = np.logaddexp.reduce([s.logpdf(row, {**x, t: j}, dict(C) or None,
            y) for j in range(s.levels(t))])
        want = s.logpdf(row, rest, dict(C) or None, y) if rest else 0.
        ctx.check(core.close(tot, want, **TOL), 'marginalize', lambda: 'the '
            'densities of a %s over the categories of %r, with %r given %r, '
            'sum to exp(%r), not exp(%r)' % (s.name, t, rest, C, tot, want))

    def refusals(self, s, rng, T, C, y, ctx):
        bad = s.bad(rng, T, C, y)
        if not bad:
            return
        what, T, C, y = rng.choice(bad)
        x = {t: s.value(t, .4) for t in T}
        for name, f in [('logpdf', lambda: s.logpdf(-1, x, C, y)),
                ('simulate', lambda: s.simulate(-1, list(T), C, y, None))]:
            try:
                got = f()
            except Exception as e:
                ctx.fault('rejected query: ' + what)
                ctx.log('rejected', what, type(e).__name__)
            else:
                ctx.check(False, 'accepted', lambda: '%s of a %s accepted '
                    '%s: %r given %r, inputs %r -> %r' % (name, s.name, what,
                        T, C, y, got))

    # ----------------------------------------------------------------------
    def answers(self, s, qs):
        out = []
        for row, T, C, y, x in qs:
            s.rng.seed(5)
            out.append(p15.ask(lambda: s.logpdf(row, dict(x), dict(C), y))
                if s.dense else None)
            s.rng.seed(6)
            out.append(p15.ask(lambda: world.plain(
                s.simulate(row, list(T), dict(C), y, 2))))
        return out

    def fail(self, s, rng, op, ctx):
        """A draw fails in the middle of a simulation."""
        q = self.query(s, rng)
        if q is None or not hasattr(s.rng, 'arm'):
            return
        T, C, y = q
        row = rng.choice(s.rowids())
        qs = []
        for _ in range(2):
            q2 = self.query(s, rng)
            if q2 is None:
                continue
            T2, C2, y2 = q2
            qs.append((rng.choice(s.rowids()), T2, C2, y2, {t: s.value(t,
                rng.randint(0, 999) / 1000.) for t in T2}))
        before = self.answers(s, qs)
        given = copy.deepcopy((T, C, y))
        s.rng.seed(op['s'])
        s.rng.arm(1 + op['i'] % 7)
        try:
            s.simulate(row, T, C, y, rng.choice([None, 1, 3, 5]))
        except simrng.Injected:
            pass
        except p15.QUERY_ERRORS:
            pass
        if s.rng.disarm():
            ctx.fault('draw fails')
        ctx.check((T, C, y) == given, 'argument-mutated',
            lambda: 'simulate of a %s changed its arguments' % s.name)
        d = core.differ(self.answers(s, qs), before, 1e-9, 1e-9)
        ctx.check(d is None, 'failed-draw', lambda: 'a failing draw changed '
            'the answers of a %s: %s' % (s.name, d))

    def draw(self, s, rng, plan, ctx):
        for _ in range(6):
            q = self.query(s, rng)
            if q is None:
                return
            T, C, y = q
            row = rng.choice(s.rowids())
            known = isinstance(s, FromKind) and s.seen(row) \
                and len(s.variables) == 1
            law = None
            if isinstance(s, Ring):
                break
            if known:
                break
            law = s.law(row, T, C, y)
            if law is not None and getattr(s, 'draws', lambda a, b: True)(
                    T, C):
                break
        else:
            return
        n, form = plan['n'], plan['form']
        if known:
            n = 5
        s.rng.seed(plan['sim'] % 10**6)
        if s.name in ('knn', 'random_forest', 'forest'):
            n = min(n, 300)
        if getattr(law, 'lots', False):
            form = 'single'
            ctx.probe('tied-neighbours')
        given = copy.deepcopy((T, C, y))
        if form == 'many':
            S = s.simulate(row, T, C, y, n)
        elif form == 'single':
            S = [s.simulate(row, T, C, y, None) for _ in range(n)]
        else:
            k = rng.choice([1, 2, 3, 7])
            n = n // k * k
            S = [d for _ in range(n // k)
                for d in s.simulate(row, T, C, y, k)]
        ctx.check((T, C, y) == given, 'argument-mutated',
            lambda: 'simulate of a %s changed its arguments' % s.name)
        S = list(S)
        ctx.check(len(S) == n, 'count', lambda: '%d rows drawn from a %s, %d '
            'asked' % (len(S), s.name, n))
        ctx.check(len(set(map(id, S))) == len(S), 'shared', lambda: 'rows '
            'drawn together from a %s are one object' % s.name)
        for d in S:
            ctx.check(set(d) == set(T), 'columns', lambda: 'a draw of %r from '
                'a %s has %r' % (T, s.name, sorted(d)))
        D = {t: np.array([float(np.ravel(d[t])[0]) for d in S]) for t in T}
        ctx.log('draws', repr({t: [round(float(v), 6) for v in x[:4]]
            for t, x in D.items()}))
        ctx.probe('drew-%s-%s' % (s.name, form))
        ctx.ops += 1
        if known:
            v = s.known(row)
            ctx.check(all(x == v for x in D[T[0]]), 'observed', lambda: 'row '
                '%r of a %s holds %r but draws %r' % (row, s.name, v, D))
            return
        if law is not None and getattr(law, 'mean', None) is not None:
            # By design the prediction itself.
            ctx.check(all(core.close(float(v), law.mean, 1e-6, 1e-6)
                for v in D[T[0]]), 'prediction', lambda: 'an ols draws %r, '
                    'its prediction is %r' % (D, law.mean))
            return
        if any(not np.isfinite(x).all() or np.abs(x).max() > 1e100
                for x in D.values()):
            ctx.probe('overflow')
            return
        V = np.random.RandomState((plan['sim'] * 48271 + 11) % 2**31)
        if isinstance(s, Ring):
            U = s.uniforms(D, C, y, V)
            ctx.check(not isinstance(U, str), 'support', lambda: U)
            if U is None:
                return
        else:
            if s.name in ('lognormal', 'exponential'):
                ctx.check(D[T[0]].min() >= 0, 'support', 'negative draws')
                D = {t: np.maximum(x, 1e-300) for t, x in D.items()}
            lp, U = law.walk(D, s.order(T), V=V)
            ctx.check(not (np.isnan(lp) | (lp == -np.inf)).any(), 'support',
                lambda: 'a %s holding rows %r drew values of %r given %r, '
                'inputs %r without density: %r' % (s.name, s.rows, T, C, y,
                    {t: x[~np.isfinite(lp)][:4].tolist()
                        for t, x in D.items()}))
        p, test, which = pred.test_uniform(U)
        ctx.check(p > P_MIN, 'distribution', lambda: '%d draws (%s) of %r '
            'from a %s holding rows %r, given %r, inputs %r, row %r do not '
            'follow its law: %s test of %r has p = %.2g' % (len(S), form, T,
                s.name, s.rows, C, y, row, test, which, p))


PROP = P20()
