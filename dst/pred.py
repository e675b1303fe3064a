"""Predictive distributions in closed form, and the Rosenblatt transform.

Given the model's partitions, hyperparameters and table, a draw of several
columns of one row is mapped to numbers that are independent and uniform
exactly when the draws are independent and distributed as the model says.
"""

import math

import numpy as np
from scipy import stats
from scipy.special import betaln, i0e

from . import ref

TINY = -745.


def crit(cctype, d, h, xs):
    """(cdf(x), left limit of cdf, log density) of one more value after xs."""
    n = len(xs)
    xs = np.asarray(xs, dtype=float)

    def nig(ys):
        m, r, s, nu = h['m'], h['r'], h['s'], h['nu']
        for y in ys:
            s = s + r * (y - m) ** 2 / (r + 1.)
            m = (r * m + y) / (r + 1.)
            r, nu = r + 1., nu + 1.
        return stats.t(nu, loc=m, scale=math.sqrt(s * (r + 1) / (r * nu)))
    if cctype == 'normal':
        t = nig(xs)
        return lambda x: (t.cdf(x), t.cdf(x), t.logpdf(x))
    if cctype == 'lognormal':
        t = nig(np.log(xs))

        def f(x):
            with np.errstate(divide='ignore'):
                l = np.log(x)
            c = t.cdf(l)
            return c, c, t.logpdf(l) - l
        return f
    if cctype == 'exponential':
        t = stats.lomax(h['a'] + n, scale=h['b'] + xs.sum())
        return lambda x: (t.cdf(x), t.cdf(x), t.logpdf(x))
    if cctype == 'poisson':
        an, bn = h['a'] + xs.sum(), h['b'] + n
        t = stats.nbinom(an, bn / (bn + 1.))
        return lambda x: (t.cdf(x), t.cdf(x - 1), t.logpmf(x))
    if cctype == 'geometric':
        a, b = h['a'] + n, h['b'] + xs.sum()

        def f(x):
            sf = lambda y: np.exp(betaln(a, b + y) - betaln(a, b))
            return 1 - sf(x + 1), 1 - sf(x), \
                betaln(a + 1, b + x) - betaln(a, b)
        return f
    if cctype in ('bernoulli', 'categorical'):
        if cctype == 'bernoulli':
            p = np.array([h['beta'] + n - xs.sum(), h['alpha'] + xs.sum()])
        else:
            p = np.array([(xs == j).sum() + h['alpha']
                for j in range(int(d['k']))], dtype=float)
        return table(p / p.sum())
    if cctype == 'vonmises':
        C = h['a'] * math.cos(h['b']) + h['k'] * np.cos(xs).sum()
        S = h['a'] * math.sin(h['b']) + h['k'] * np.sin(xs).sum()

        def dens(x):
            R = np.hypot(C + h['k'] * np.cos(x), S + h['k'] * np.sin(x))
            R0 = math.hypot(C, S)
            return np.log(i0e(R)) + R - math.log(i0e(R0)) - R0 \
                - math.log(2 * math.pi * i0e(h['k'])) - h['k']
        g = np.linspace(0, 2 * math.pi, 4001)
        y = np.exp(dens(g))
        c = np.concatenate([[0], np.cumsum((y[1:] + y[:-1]) / 2)])
        c /= c[-1]
        return lambda x: (np.interp(x, g, c), np.interp(x, g, c), dens(x))
    raise KeyError(cctype)


def table(p):
    cum = np.concatenate([[0.], np.cumsum(p)])
    with np.errstate(divide='ignore'):
        lp = np.log(p)

    def f(x):
        x = np.asarray(x)
        i = np.clip(x.astype(int), 0, len(p) - 1)
        ok = (x == i)
        return cum[i + 1], cum[i], np.where(ok, lp[i], -np.inf)
    return f


def param(cctype, d, g):
    """The same for a component with explicit parameters."""
    p = g.get_params()
    if cctype == 'beta':
        t = stats.beta(p['strength'] * p['balance'],
            p['strength'] * (1 - p['balance']))

        def f(x):
            # A draw rounded to an end of the interval stands for all the
            # reals rounded to it.
            lo, hi = 1e-300, 1 - 2 ** -53
            F = np.where(x >= hi, 1., t.cdf(np.maximum(x, lo)))
            L = np.where(x >= hi, t.cdf(hi), np.where(x <= lo, 0., F))
            with np.errstate(divide='ignore', invalid='ignore'):
                lp = np.where((x >= hi) | (x <= lo), np.log(F - L),
                    t.logpdf(np.clip(x, lo, hi)))
            return F, L, lp
        return f
    if cctype == 'normal_trunc':
        mu, sd = p['mu'], p['sigma']
        t = stats.truncnorm((d['l'] - mu) / sd, (d['h'] - mu) / sd,
            loc=mu, scale=sd)
        return lambda x: (t.cdf(x), t.cdf(x), t.logpdf(x))
    raise KeyError(cctype)


class Pred(object):
    """Predictive distributions of the columns of a state, by cluster."""

    def __init__(self, m):
        self.m, self.st = m, m.st
        self.cache = {}

    def fn(self, c, k):
        if (c, k) not in self.cache:
            t, d = self.m.types[c]
            dim = self.st.dim_for(c)
            if self.m.collapsed(c):
                self.cache[c, k] = crit(t, d, dim.hypers,
                    [x for x, _y in self.m.members(c, k)])
            else:
                self.cache[c, k] = param(t, d,
                    dim.clusters.get(k, dim.aux_model))
        return self.cache[c, k]

    def __call__(self, c, k, x, ins):
        """(cdf, left cdf, logpdf) arrays for the values x of column c in
        cluster k; ins: list of arrays of its input columns."""
        t, d = self.m.types[c]
        x = np.asarray(x, dtype=float)
        if t == 'linear_regression':
            return self.linreg(c, k, x, ins)
        if t == 'random_forest':
            return self.forest(c, k, x, ins)
        return self.fn(c, k)(x)

    def rows(self, c, ins):
        return np.array([ref.dummy(y, self.m.ks(c)) for y in zip(*ins)])

    def linreg(self, c, k, x, ins):
        h = self.st.dim_for(c).hypers
        cells = self.m.members(c, k)
        a, b = h['a'], h['b']
        D = self.rows(c, ins)
        P = np.eye(D.shape[1])
        loc = np.zeros(len(x))
        bn = b
        if cells:
            X = np.array([ref.dummy(y, self.m.ks(c)) for _x, y in cells])
            y = np.array([v for v, _y in cells])
            P = P + X.T.dot(X)
            w = np.linalg.solve(P, X.T.dot(y))
            loc = D.dot(w)
            bn = b + .5 * (y.dot(y) - w.dot(P).dot(w))
        an = a + len(cells) / 2.
        s2 = bn / an * (1 + np.einsum('ij,ji->i', D, np.linalg.solve(P, D.T)))
        t = stats.t(2 * an, loc=loc, scale=np.sqrt(s2))
        return t.cdf(x), t.cdf(x), t.logpdf(x)

    def forest(self, c, k, x, ins):
        t, d = self.m.types[c]
        dim = self.st.dim_for(c)
        g = dim.clusters.get(k, dim.aux_model)
        K = int(d['k'])
        hi, lo, lp = [], [], []
        for i, v in enumerate(x):
            y = [a[i] for a in ins]
            ls, _ = ref.uncollapsed(t, g, d, list(range(K)), [y] * K)
            p = np.exp(ls)
            F, L, l = table(p / p.sum())(np.array([v]))
            hi.append(F[0]), lo.append(L[0]), lp.append(l[0])
        return np.array(hi), np.array(lo), np.array(lp)

    # ----------------------------------------------------------------------
    def order(self, cols):
        """Conditional columns after their inputs."""
        cond = [c for c in cols if self.m.inputs(c)]
        return [c for c in cols if c not in cond] + cond

    def tables(self, v):
        n = self.m.counts(v)
        return sorted(n) + [max(n) + 1], n

    def weights(self, v, n):
        K, counts = self.tables(v)
        a = self.st.views[v].alpha()
        lw = np.log([counts.get(k, a) for k in K])
        return K, np.tile(lw - np.logaddexp.reduce(lw), (n, 1))

    def walk(self, draws, given, row=None, V=None, z=(), zgiven=None):
        """(log density, uniforms) of each draw.

        draws: dict column -> array; given: dict column -> value; row: an
        observed row, or None; z: blocks whose cluster is drawn, as
        {v: array}; zgiven: {v: k}.  V: source of uniforms for the discrete
        columns.
        """
        z = dict(z or {})
        zgiven = dict(zgiven or {})
        n = len(next(iter(list(draws.values()) + list(z.values()))))
        total = np.zeros(n)
        U = {}
        values = {c: np.full(n, float(x)) for c, x in given.items()}
        if row is not None:
            for c in self.st.outputs:
                x = self.m.table[c][row]
                if c not in values and not ref.isnan(x):
                    values[c] = np.full(n, float(x))
        values.update({c: np.asarray(x, dtype=float)
            for c, x in draws.items()})
        for v in sorted(self.st.views):
            view = self.st.views[v]
            T = self.order([c for c in view.dims if c in draws])
            if not T and v not in z:
                continue
            if row is not None:
                K, lw = [view.Zr(row)], np.zeros((n, 1))
            else:
                K, lw = self.weights(v, n)
                if v in zgiven:
                    K = [zgiven[v]]
                    lw = np.zeros((n, 1))
                for c in view.dims:
                    if c in given:
                        lw = lw + self.logps(c, K, values)
                lw = lw - np.logaddexp.reduce(lw, axis=1)[:, None]
            if v in z:
                p = np.exp(lw)
                cum = np.concatenate([np.zeros((n, 1)),
                    np.cumsum(p, axis=1)], axis=1)
                i = np.array([K.index(k) for k in z[v]])
                r = np.arange(n)
                total = total + lw[r, i]
                if V is not None:
                    U['z%d' % v] = cum[r, i] + V.rand(n) * p[r, i]
                new = np.full(lw.shape, -np.inf)
                new[r, i] = 0.
                lw = new
            for c in T:
                F, L, l = self.stack(c, K, values)
                w = np.exp(lw)
                if V is not None:
                    hi, lo = (w * F).sum(axis=1), (w * L).sum(axis=1)
                    U[c] = lo + V.rand(n) * (hi - lo) \
                        if (hi != lo).any() else hi
                lw = lw + l
                norm = np.logaddexp.reduce(lw, axis=1)
                total = total + norm
                lw = lw - norm[:, None]
        return total, U

    def stack(self, c, K, values):
        ins = [values[i] for i in self.m.inputs(c)]
        out = [self(c, k, values[c], ins) for k in K]
        n = len(values[c])
        return [np.array([np.broadcast_to(o[j], (n,)) for o in out]).T
            for j in range(3)]

    def logps(self, c, K, values):
        return self.stack(c, K, values)[2]


def chi2(observed, expected):
    """p-value of a table of counts with known expectations."""
    o, e = np.asarray(observed, float).ravel(), \
        np.asarray(expected, float).ravel()
    return float(stats.chi2.sf(((o - e) ** 2 / e).sum(), len(o) - 1))


def grid(u, v, b):
    i = np.minimum((np.asarray(u) * b).astype(int), b - 1)
    j = np.minimum((np.asarray(v) * b).astype(int), b - 1)
    out = np.zeros((b, b))
    np.add.at(out, (i, j), 1)
    return out


def test_uniform(U):
    """Smallest p-value over tests that columns of uniforms are uniform,
    independent of each other, and independent from draw to draw; with the
    name of the test."""
    names = list(U)
    n = len(U[names[0]])
    out = []
    h = n // 2
    for a in names:
        u = np.asarray(U[a])
        if np.isnan(u).any() or u.min() < -1e-9 or u.max() > 1 + 1e-9:
            out.append((0., 'support', a))
            continue
        u = np.clip(u, 0, 1)
        b = 8
        o = np.bincount(np.minimum((u * b).astype(int), b - 1), minlength=b)
        out.append((chi2(o, np.full(b, n / float(b))), 'marginal', a))
        first = np.bincount(np.minimum((u[:h] * 4).astype(int), 3),
            minlength=4)
        out.append((chi2(first, np.full(4, h / 4.)), 'first half', a))
    if any(p == 0. for p, _t, _a in out):
        return min(out)
    b = 4 if n >= 300 else 3
    for i, a in enumerate(names):
        for c in names[i + 1:]:
            out.append((chi2(grid(U[a], U[c], b),
                np.full((b, b), n / float(b * b))), 'joint', (a, c)))
        for c in names:
            x, y = np.asarray(U[a])[0:2 * h:2], np.asarray(U[c])[1:2 * h:2]
            out.append((chi2(grid(x, y, b),
                np.full((b, b), h / float(b * b))), 'successive', (a, c)))
    return min(out, key=lambda t: t[0])
