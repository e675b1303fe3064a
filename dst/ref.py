"""Independent reference formulas, computed from raw values only."""

import math

import numpy as np
from scipy.special import gammaln, betaln, ive, logsumexp

LOG2PI = math.log(2 * math.pi)


def crp(counts, alpha):
    """log P(partition) from block sizes, by the sequential construction."""
    n, lp = 0, 0.
    for c in counts:
        for i in range(c):
            lp += math.log(alpha if i == 0 else i) - math.log(n + alpha)
            n += 1
    return lp


def log_i0(x):
    return math.log(ive(0, x)) + abs(x)


def nig(xs, m, r, s, nu):
    """Normal likelihood with mu|rho ~ N(m, 1/(r rho)), rho ~ Gamma(nu/2,
    rate s/2): product of Student-t predictives."""
    from scipy.stats import t as student
    lp = 0.
    rn, nun, mn, sn = r, nu, m, s
    for x in xs:
        scale = math.sqrt(sn * (rn + 1) / (rn * nun))
        lp += student.logpdf(x, nun, loc=mn, scale=scale)
        # One-observation update.
        sn = sn + rn * (x - mn) ** 2 / (rn + 1)
        mn = (rn * mn + x) / (rn + 1)
        rn += 1
        nun += 1
    return float(lp)


def marginal(cctype, distargs, hypers, xs):
    """log marginal likelihood of the observed values of one cluster."""
    xs = [float(x) for x in xs]
    n = len(xs)
    h = hypers
    if cctype == 'normal':
        return nig(xs, h['m'], h['r'], h['s'], h['nu'])
    if cctype == 'lognormal':
        ls = [math.log(x) for x in xs]
        return nig(ls, h['m'], h['r'], h['s'], h['nu']) - sum(ls)
    if cctype == 'bernoulli':
        k = sum(xs)
        return float(betaln(h['alpha'] + k, h['beta'] + n - k)
            - betaln(h['alpha'], h['beta']))
    if cctype == 'categorical':
        K, a = int(distargs['k']), h['alpha']
        lp, seen = 0., [0] * K
        for i, x in enumerate(xs):
            lp += math.log(seen[int(x)] + a) - math.log(i + K * a)
            seen[int(x)] += 1
        return lp
    if cctype == 'poisson':
        a, b = h['a'], h['b']
        s = sum(xs)
        return float(a * math.log(b) - gammaln(a) + gammaln(a + s)
            - (a + s) * math.log(b + n) - sum(gammaln(x + 1) for x in xs))
    if cctype == 'exponential':
        a, b = h['a'], h['b']
        s = sum(xs)
        return float(a * math.log(b) - gammaln(a) + gammaln(a + n)
            - (a + n) * math.log(b + s))
    if cctype == 'geometric':
        a, b = h['a'], h['b']
        s = sum(xs)
        return float(betaln(a + n, b + s) - betaln(a, b))
    if cctype == 'vonmises':
        a, b, k = h['a'], h['b'], h['k']
        C = a * math.cos(b) + k * sum(math.cos(x) for x in xs)
        S = a * math.sin(b) + k * sum(math.sin(x) for x in xs)
        return -n * (LOG2PI + log_i0(k)) + log_i0(math.hypot(C, S)) - log_i0(a)
    raise KeyError(cctype)


def linreg_marginal(distargs_k, hypers, xs, Y):
    """log marginal likelihood of Bayesian linear regression with
    w ~ N(0, s2 I), s2 ~ InvGamma(a, b), as a multivariate Student-t."""
    n = len(xs)
    if n == 0:
        return 0.
    a, b = hypers['a'], hypers['b']
    X = np.asarray(Y, dtype=float)
    y = np.asarray(xs, dtype=float)
    M = np.eye(n) + X.dot(X.T)
    sign, logdet = np.linalg.slogdet(M)
    q = y.dot(np.linalg.solve(M, y))
    df = 2 * a
    # scale matrix (b/a) M
    return float(gammaln((df + n) / 2) - gammaln(df / 2)
        - n / 2. * math.log(df * math.pi) - .5 * (logdet + n * math.log(b / a))
        - (df + n) / 2. * math.log(1 + q / (b / a) / df))


def dummy(values, ks):
    """Design row: 1, then each input: numeric as is; categorical with k
    values as k indicators."""
    row = [1.]
    for v, k in zip(values, ks):
        if k is None:
            row.append(v)
        else:
            one = [0.] * int(k)
            if 0 <= v < k and v == int(v):
                one[int(v)] = 1.
            row.extend(one)
    return row


# --------------------------------------------------------------------------
# Components with explicit parameters

def uncollapsed(cctype, g, distargs, xs, ys=None, **given):
    """(log density of each x, log prior) given the component's parameters."""
    from scipy import stats
    p = dict(g.get_params(), **given)
    if cctype == 'beta':
        a, b = p['strength'] * p['balance'], p['strength'] * (1 - p['balance'])
        lp = [float(stats.beta.logpdf(x, a, b)) for x in xs]
        return lp, float(stats.expon.logpdf(p['strength'], scale=5.)
            + stats.beta.logpdf(p['balance'], 1., 1.))
    if cctype == 'normal_trunc':
        l, h = distargs['l'], distargs['h']
        mu, sd = p['mu'], p['sigma']
        # The mass of a far tail is a difference of equal numbers.
        hi, lo = (h - mu) / sd, (l - mu) / sd
        mass = stats.norm.cdf(hi) - stats.norm.cdf(lo) if lo < 0 \
            else stats.norm.sf(lo) - stats.norm.sf(hi)
        Z = math.log(mass) if mass > 0 else -math.inf
        lp = [float(stats.norm.logpdf(x, mu, sd)) - Z
            if l <= x <= h else -math.inf for x in xs]
        return lp, float(stats.gamma.logpdf(sd, g.alpha, scale=g.beta)
            - math.log(h - l))
    if cctype == 'random_forest':
        k, al, f = int(distargs['k']), p['alpha'], p['forest']
        lp = []
        for x, y in zip(xs, ys):
            if not hasattr(f, 'classes_'):
                lp.append(-math.log(k))
                continue
            cl = list(f.classes_)
            pr = f.predict_proba([y])[0][cl.index(x)] if x in cl else 0.
            lp.append(math.log(al / k + (1 - al) * pr))
        return lp, 0.
    raise KeyError(cctype)


def isnan(x):
    return isinstance(x, float) and x != x


class Model(object):
    """An independent evaluation of a state from its table, partitions,
    hyperparameters and (for types without a closed form) parameters."""

    def __init__(self, state, table, types):
        self.st, self.table, self.types = state, table, types
        self.cache = {}

    def rows(self):
        return range(len(next(iter(self.table.values()))))

    def inputs(self, c):
        return list(self.st.dim_for(c).inputs[1:])

    def ks(self, c):
        out = []
        for i in self.inputs(c):
            t, d = self.types[i]
            out.append(int(d['k']) if t == 'categorical' else
                2 if t == 'bernoulli' else None)
        return out

    def members(self, c, k, Zr=None):
        """[(x, y)] of the cells of column c present in cluster k."""
        Zr = self.st.view_for(c).Zr() if Zr is None else Zr
        out = []
        for r in sorted(Zr):
            if Zr[r] != k:
                continue
            x = self.table[c][r]
            y = [self.table[i][r] for i in self.inputs(c)]
            if isnan(x) or any(isnan(v) for v in y):
                continue
            out.append((x, y))
        return out

    def marg(self, c, cells):
        """log marginal likelihood of cells in one cluster of column c."""
        t, d = self.types[c]
        h = self.st.dim_for(c).hypers
        key = (c, tuple(sorted(h.items())), repr(cells))
        if key not in self.cache:
            xs = [x for x, _y in cells]
            if t == 'linear_regression':
                Y = [dummy(y, self.ks(c)) for _x, y in cells]
                v = linreg_marginal(None, h, xs, Y)
            else:
                v = marginal(t, d, h, xs)
            self.cache[key] = v
        return self.cache[key]

    def collapsed(self, c):
        return self.types[c][0] not in ('beta', 'normal_trunc',
            'random_forest')

    def dim_score(self, c, Zr=None, prior=True, hypers=None):
        if hypers is not None:
            return self.dim_score_hypers(c, hypers)
        Zr = self.st.view_for(c).Zr() if Zr is None else Zr
        dim = self.st.dim_for(c)
        tot = 0.
        for k in sorted(set(Zr.values())):
            cells = self.members(c, k, Zr)
            if self.collapsed(c):
                tot += self.marg(c, cells)
            else:
                t, d = self.types[c]
                g = dim.clusters[k]
                lp, lprior = uncollapsed(t, g, d, [x for x, _ in cells],
                    [y for _, y in cells])
                tot += sum(lp) + (lprior if prior else 0.)
        return tot

    def dim_score_hypers(self, c, h):
        """Score of a collapsed column under other hyperparameters."""
        t, d = self.types[c]
        Zr = self.st.view_for(c).Zr()
        tot = 0.
        for k in sorted(set(Zr.values())):
            cells = self.members(c, k, Zr)
            xs = [x for x, _y in cells]
            if t == 'linear_regression':
                Y = [dummy(y, self.ks(c)) for _x, y in cells]
                tot += linreg_marginal(None, h, xs, Y)
            else:
                tot += marginal(t, d, h, xs)
        return tot

    def cell(self, c, k, x, y=()):
        """log predictive of one more cell in cluster k of column c."""
        t, d = self.types[c]
        dim = self.st.dim_for(c)
        if self.collapsed(c):
            cells = self.members(c, k)
            return self.marg(c, cells + [(x, list(y))]) - self.marg(c, cells)
        g = dim.clusters.get(k, dim.aux_model)
        return uncollapsed(t, g, d, [x], [list(y)])[0][0]

    def view_score(self, v):
        view = self.st.views[v]
        return crp(list(self.counts(v).values()), view.alpha()) + sum(
            self.dim_score(c) for c in view.dims)

    def counts(self, v):
        n = {}
        for z in self.st.views[v].Zr().values():
            n[z] = n.get(z, 0) + 1
        return n

    def state_crp(self):
        st = self.st
        Zv = st.Zv()
        blocks, seen = [], set()
        for b in st.Cd:
            blocks.append(b[0])
            seen.update(b)
        customers = blocks + [c for c in Zv if c not in seen]
        n = {}
        for c in customers:
            n[Zv[c]] = n.get(Zv[c], 0) + 1
        return crp(list(n.values()), st.alpha())

    def likelihood(self):
        return sum(self.dim_score(c) for c in self.st.outputs)

    def score(self):
        return self.state_crp() + sum(self.view_score(v)
            for v in self.st.views)

    # -- predictive -----------------------------------------------------------
    def view_joint(self, v, vals):
        """[(k, log p(k) + sum_c log p(x_c | k))] for a fresh row."""
        view = self.st.views[v]
        n = self.counts(v)
        N = sum(n.values())
        a = view.alpha()
        out = []
        for k in sorted(n) + [max(n) + 1]:
            lp = math.log(n.get(k, a)) - math.log(N + a)
            for c, x in vals.items():
                y = [vals[i] for i in self.inputs(c)]
                lp += self.cell(c, k, x, y)
            out.append((k, lp))
        return out

    def logpdf(self, targets, constraints):
        """log density of targets of a fresh row given constraints."""
        tot = 0.
        st = self.st
        for v in sorted(st.views):
            T = {c: x for c, x in targets.items() if st.Zv(c) == v}
            C = {c: x for c, x in constraints.items() if st.Zv(c) == v}
            if not T:
                continue
            num = logsumexp([l for _k, l in self.view_joint(v, {**C, **T})])
            den = logsumexp([l for _k, l in self.view_joint(v, C)])
            tot += float(num - den)
        return tot

    def logpdf_row(self, row, targets, constraints):
        """log density of missing cells of an observed row."""
        tot = 0.
        st = self.st
        vals = {c: self.table[c][row] for c in st.outputs
            if not isnan(self.table[c][row])}
        vals.update(constraints)
        vals.update(targets)
        for c, x in targets.items():
            k = st.view_for(c).Zr(row)
            y = [vals[i] for i in self.inputs(c)]
            tot += self.cell(c, k, x, y)
        # Conditional columns that are observed (or constrained) and read a
        # target are not handled here; see exact().
        return tot

    def exact(self, targets, constraints):
        """Is the density determined without sampling unobserved inputs?"""
        C, TC = set(constraints), set(constraints) | set(targets)
        for c in TC:
            ins = self.inputs(c)
            if c in C and not set(ins) <= C:
                return False
            if not set(ins) <= TC:
                return False
        return True
