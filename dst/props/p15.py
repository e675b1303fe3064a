"""P15: every component model forgets exactly what is unobserved."""

import copy
import importlib
import math
import random

import numpy as np

from .. import core, ref, world

PRIMS = world.COLLAPSED + world.UNCOLLAPSED
QUERY_ERRORS = (ValueError, AssertionError, np.linalg.LinAlgError,
    ZeroDivisionError, OverflowError, FloatingPointError)


def load(path):
    mod, name = path.rsplit('.', 1)
    return getattr(importlib.import_module(mod), name)


def ask(f):
    """An answer, or the kind of refusal."""
    try:
        return world.plain(f())
    except QUERY_ERRORS as e:
        return ('refused', type(e).__name__)


class Kind(object):
    """One kind of component: how to build it, feed it and question it."""

    saves = False
    path = None
    make_rng = np.random.RandomState

    def __init__(self, spec, seed):
        self.spec = spec
        self.rng = self.make_rng(seed)
        self.m = self.build()

    # To be given: build(params), observation(u), feed(rowid, obs),
    # queries(m, seed)
    def params(self, m):
        return {}

    def rebuild(self, rows):
        """A model that has only ever seen these rows."""
        m = self.build(self.params(self.m))
        for r, o in rows.items():
            self.feed(m, r, o)
        return m

    def feed(self, m, rowid, o):
        m.incorporate(rowid, *copy.deepcopy(o))

    def fixes(self, m, rows, what):
        """Inference: returns False if not applicable."""
        return False

    def twin(self, rows):
        """A model to run the same inference on, if nothing in the way the
        model is built is left to the order things happened in."""
        return self.rebuild(rows)

    def fitted(self, m, rows, seed):
        """What must hold after inference, whatever it chose."""
        return None

    def answers(self, m, rows, seed):
        raise NotImplementedError

    def bad(self, rng, rows):
        """(name, observation) that must be rejected."""
        return []

    def close(self, a, b):
        return core.differ(a, b, 1e-6, 1e-6)


class Primitive(Kind):

    def __init__(self, spec, seed):
        self.t, self.d = spec['cctype'], spec['distargs']
        self.c = spec['id']
        Kind.__init__(self, spec, seed)

    def build(self, params=None):
        from cgpm.utils import config
        params = params or {}
        return config.cctype_class(self.t)([self.c], [],
            hypers=params.get('hypers'), params=params.get('params'),
            distargs=copy.deepcopy(self.d) or {}, rng=self.rng)

    def params(self, m):
        return dict(hypers=dict(m.get_hypers()), params=dict(m.get_params()))

    def obs(self, us):
        u = us[0] if us[0] is not None else .37
        return ({self.c: world.cell(self.t, self.d, u)},)

    def fixes(self, m, rows, what):
        if what == 'params':
            m.transition_params()
            return True
        vals = set(o[0][self.c] for o in rows.values())
        if len(vals) < 2:
            return False
        m.transition_hypers()
        return True

    def bad(self, rng, rows):
        v = world.bad_cell(self.t, self.d, rng.randint(0, 999) / 1000.)
        good = self.obs([.4])[0]
        out = [('another variable', ({self.c + 1: good[self.c]},)),
            ('no observation', ({},)),
            ('inputs', (good, {self.c + 2: 1.}))]
        if v is not None:
            out += [('a value outside its support', ({self.c: v},))] * 3
        return out

    def answers(self, m, rows, seed):
        A = {'suff': dict(m.get_suffstats()), 'params': dict(m.get_params()),
            'hypers': dict(m.get_hypers()),
            'score': ask(m.logpdf_score)}
        rng = random.Random(seed)
        for i in range(3):
            x = world.cell(self.t, self.d, rng.randint(0, 999) / 1000.)
            A['logpdf', x] = ask(lambda: m.logpdf(-1, {self.c: x}))
        bad = world.bad_cell(self.t, self.d, rng.random())
        if bad is not None:
            A['logpdf-bad'] = ask(lambda: m.logpdf(-1, {self.c: bad}))
        self.rng.seed(seed % 2**31)
        A['draws'] = ask(lambda: m.simulate(-1, [self.c], N=3))
        for r in list(rows)[:2]:
            A['row', r] = ask(lambda: m.simulate(r, [self.c]))
        return A

    def known(self, m, rows):
        """What the rows alone say."""
        want = ref.marginal(self.t, self.d, m.get_hypers(),
            [rows[r][0][self.c] for r in rows]) \
            if self.t in world.COLLAPSED else None
        return {'score': want} if want is not None else {}


class Chain(Kind):
    """A chinese restaurant process as a component."""

    def __init__(self, spec, seed):
        self.c = spec['id']
        Kind.__init__(self, spec, seed)

    def build(self, params=None):
        from cgpm.primitives.crp import Crp
        return Crp([self.c], [], hypers=(params or {}).get('hypers'),
            rng=self.rng)

    def params(self, m):
        return dict(hypers=dict(m.get_hypers()))

    def obs(self, us):
        u = us[0] if us[0] is not None else .37
        return ({self.c: int(5 * u)},)

    def fixes(self, m, rows, what):
        if len(rows) < 2:
            return False
        m.transition_hypers()
        return True

    def bad(self, rng, rows):
        return [('another variable', ({self.c + 1: 0},)),
            ('no observation', ({},)), ('inputs', ({self.c: 1}, {7: 1.}))]

    def answers(self, m, rows, seed):
        A = {'counts': dict(m.counts), 'N': m.N,
            'score': ask(m.logpdf_score), 'hypers': dict(m.get_hypers()),
            'tables': ask(lambda: sorted(m.gibbs_tables(-1)))}
        for k in range(6):
            A['logpdf', k] = ask(lambda: m.logpdf(-1, {self.c: k}))
        for r in list(rows)[:3]:
            A['gibbs', r] = ask(lambda: dict(zip(m.gibbs_tables(r),
                m.gibbs_logps(r))))
            A['row', r] = ask(lambda: m.simulate(r, [self.c]))
        self.rng.seed(seed % 2**31)
        A['draws'] = ask(lambda: m.simulate(-1, [self.c], N=3))
        return A

    def known(self, m, rows):
        n = {}
        for o in rows.values():
            n[o[0][self.c]] = n.get(o[0][self.c], 0) + 1
        return {'counts': n, 'N': len(rows), 'score': ref.crp(
            list(n.values()), m.get_hypers()['alpha'])}


class Regression(Kind):
    """linear_regression, ordinary least squares, random_forest."""

    saves = True
    PATHS = dict(linreg='cgpm.regressions.linreg.LinearRegression',
        ols='cgpm.regressions.ols.OrdinaryLeastSquares',
        forest='cgpm.regressions.forest.RandomForest')

    def __init__(self, spec, seed):
        self.which = spec['kind']
        self.c, self.ins = spec['id'], spec['inputs']
        self.st, self.k = spec['stattypes'], spec['k']
        self.cls = load(self.PATHS[self.which])
        Kind.__init__(self, spec, seed)

    def build(self, params=None):
        params = params or {}
        d = {'inputs': {'stattypes': list(self.st),
            'statargs': [dict(k=a) if a else {} for a in self.k]}}
        if self.which == 'forest':
            d['k'] = self.spec['levels']
        return self.cls([self.c], list(self.ins), hypers=params.get('hypers'),
            params=params.get('params'), distargs=d, rng=self.rng)

    def params(self, m):
        return dict(hypers=dict(m.get_hypers()), params=dict(m.get_params()))

    def y(self, us):
        out = {}
        for j, i in enumerate(self.ins):
            u = us[(j + 1) % len(us)]
            u = .37 if u is None else u
            out[i] = int(u * self.k[j]) if self.k[j] else 0. \
                if .48 <= u < .52 else round(10 * u - 5, 3)
        return out

    def x(self, u):
        u = .37 if u is None else u
        return int(u * self.spec['levels']) if self.which == 'forest' \
            else 0. if .48 <= u < .52 else round(10 * u - 5, 3)

    def obs(self, us):
        return ({self.c: self.x(us[0])}, self.y(us))

    def fixes(self, m, rows, what):
        if not rows or (self.which == 'linreg' and len(set(
                o[0][self.c] for o in rows.values())) < 2):
            return False
        if self.which == 'linreg' and what == 'params':
            return False
        m.transition(N=1)
        return True

    def twin(self, rows):
        # A forest is fitted with its own source of randomness.
        return None if self.which == 'forest' else self.rebuild(rows)

    def fitted(self, m, rows, seed):
        if self.which != 'forest' or not rows:
            return None
        rng = random.Random(seed)
        base = math.log(m.get_params()['alpha']) - math.log(
            self.spec['levels'])
        seen = set(o[0][self.c] for o in rows.values())
        y = self.obs([rng.randint(0, 999) / 1000. for _ in range(4)])[1]
        for j in range(self.spec['levels']):
            got = m.logpdf(-1, {self.c: j}, None, y)
            if not (got >= base - 1e-9 if j in seen
                    else core.close(got, base, 1e-9, 1e-9)):
                return ('category %d, %s, has log density %r and noise alone '
                    'gives %r' % (j, 'observed' if j in seen
                        else 'never observed', got, base))
        return None

    def bad(self, rng, rows):
        o, y = self.obs([.3, .6, .1, .8])
        i = rng.choice(self.ins)
        less = {j: v for j, v in y.items() if j != i}
        out = [('no observation', ({}, y)),
            ('another variable', ({self.c + 1: o[self.c]}, y)),
            ('a missing value', ({self.c: float('nan')}, y)),
            ('a missing input', (o, less)),
            ('an input that is nan', (o, {**y,
                i: float('nan')})),
            ('an unknown input', (o, {**y, 999: 1.})),
            ('its output as an input', (o, {**y, self.c: 1.})),
            ('no inputs', (o,))]
        if self.which == 'forest':
            for v in (self.spec['levels'], -1, .5):
                out.append(('an unsupported category', ({self.c: v}, y)))
        return out

    def answers(self, m, rows, seed):
        A = {'N': m.N, 'score': ask(m.logpdf_score)}
        rng = random.Random(seed)
        for i in range(3):
            o, y = self.obs([rng.randint(0, 999) / 1000. for _ in range(4)])
            A['logpdf', i] = ask(lambda: m.logpdf(-1, o, None, y))
            self.rng.seed((seed + i) % 2**31)
            A['draw', i] = ask(lambda: m.simulate(-1, [self.c], None, y))
        for r in list(rows)[:2]:
            A['row', r] = ask(lambda: m.simulate(r, [self.c], None,
                rows[r][1]))
        if self.which == 'forest':
            A['counts'] = list(m.counts) if hasattr(m, 'counts') else None
            A['alpha'] = m.get_params()['alpha']
        if self.which == 'ols':
            A['noise'] = m.get_params()['noise']
        A['hypers'] = dict(m.get_hypers())
        return A

    def known(self, m, rows):
        out = {'N': len(rows)}
        if self.which == 'linreg':
            Y = [ref.dummy([o[1][i] for i in self.ins], self.k)
                for o in rows.values()]
            out['score'] = ref.linreg_marginal(None, m.get_hypers(),
                [o[0][self.c] for o in rows.values()], Y)
        if self.which == 'forest':
            out['counts'] = [sum(o[0][self.c] == j for o in rows.values())
                for j in range(self.spec['levels'])]
        return out


class Rows(Kind):
    """Models of whole rows: neighbours, kernels, factors."""

    saves = True
    PATHS = dict(knn='cgpm.knn.mvknn.MultivariateKnn',
        kde='cgpm.kde.mvkde.MultivariateKde',
        factor='cgpm.factor.factor.FactorAnalysis')

    def __init__(self, spec, seed):
        self.which = spec['kind']
        self.outs = spec['outputs']
        self.L = spec.get('L', 0)
        self.obsv = self.outs[:len(self.outs) - self.L]
        self.k = spec['k']
        self.cls = load(self.PATHS[self.which])
        Kind.__init__(self, spec, seed)

    def build(self, params=None):
        params = copy.deepcopy(params or self.spec.get('params'))
        d = {'outputs': {'stattypes': ['categorical' if a else 'numerical'
            for a in self.k], 'statargs': [dict(k=a) if a else {}
            for a in self.k]}}
        kw = {}
        if self.which == 'knn':
            kw = dict(K=self.spec['K'], M=self.spec['M'])
        if self.which == 'factor':
            kw = dict(L=self.L)
        return self.cls(list(self.outs), [], distargs=d, params=params,
            rng=self.rng, **kw)

    def params(self, m):
        if self.which == 'kde':
            return {'bw': list(m.get_params()['bw'])}
        if self.which == 'factor':
            return {'mux': np.array(m.mux), 'Psi': np.array(m.Psi),
                'W': np.array(m.W)}
        return {}

    def value(self, j, u):
        if self.k[j]:
            return int(u * self.k[j])
        # Coarse values tie.
        return round(4 * u - 2.) if self.spec.get('coarse') else 0. \
            if .48 <= u < .52 else round(10 * u - 5, 3)

    def obs(self, us):
        o = {}
        for j, q in enumerate(self.obsv):
            u = us[j % len(us)]
            if u is not None:
                o[q] = self.value(j, u)
        if not o:
            o[self.obsv[0]] = self.value(0, .37)
        return (o,)

    def fitted(self, m, rows, seed):
        return None if self.was in (None, self.params(m)) else \
            'bandwidths learned from nothing: %r, before %r' % (
                self.params(m), self.was)

    def complete(self, rows):
        return [o[0] for o in rows.values() if len(o[0]) == len(self.obsv)]

    def fixes(self, m, rows, what):
        full = self.complete(rows)
        if self.which == 'knn':
            return False
        self.was = None
        if self.which == 'kde':
            if not rows:
                self.was = self.params(m)
                m.transition(N=1)
                return True
            # Bandwidths are learned from spread out data.
            if len(full) < max(4, len(self.obsv) + 1) or any(self.k):
                return False
        if len(full) < 4 or any(len(set(o[q] for o in full)) < 3
                for q in self.obsv):
            return False
        m.transition(N=1)
        return True

    def bad(self, rng, rows):
        o = self.obs([.3, .6, .1, .8])[0]
        out = [('no observation', ({},)), ('inputs', (o, {999: 1.})),
            ('an unknown variable', ({**o, 999: 1.},))]
        if self.which == 'factor':
            out.append(('a latent variable', ({**o, self.outs[-1]: 0.},)))
        for j, q in enumerate(self.obsv):
            if self.k[j]:
                for v in (self.k[j], -1, .5):
                    out.append(('an unsupported category', ({**o, q: v},)))
        return out

    def answers(self, m, rows, seed):
        A = {'N': m.N}
        if self.which != 'knn':
            A['score'] = ask(m.logpdf_score)
            A['params'] = world.plain(self.params(m))
        rng = random.Random(seed)
        n = len(self.outs)
        for i in range(4):
            pick = rng.sample(range(n), n)
            nt = rng.randint(1, n - 1)
            ne = rng.randint(0 if rng.random() < .3 else 1, n - nt)
            v = {self.outs[j]: (self.value(j, rng.randint(0, 999) / 1000.)
                if j < len(self.obsv) else .5) for j in pick}
            T = [self.outs[j] for j in pick[:nt]]
            E = {self.outs[j]: v[self.outs[j]] for j in pick[nt:nt + ne]}
            row = rng.choice([-1, -1, None] + list(rows)[:2])
            if self.which == 'knn' and row is None:
                row = -1
            self.rng.seed((seed + i) % 2**31)
            A['logpdf', i] = ask(lambda: flat(m.logpdf(row,
                {t: v[t] for t in T}, dict(E))))
            self.rng.seed((seed + i) % 2**31)
            A['draw', i] = ask(lambda: m.simulate(row, list(T), dict(E)))
            A['draws', i] = ask(lambda: m.simulate(row, list(T), dict(E),
                N=2))
        return A

    def known(self, m, rows):
        out = {'N': len(rows)}
        if self.which == 'factor':
            from scipy import stats
            S = m.W.dot(m.W.T) + m.Psi
            tot = 0.
            for (o,) in rows.values():
                js = [j for j, q in enumerate(self.obsv) if q in o]
                tot += stats.multivariate_normal.logpdf(
                    [o[self.obsv[j]] for j in js], m.mux[js],
                    S[np.ix_(js, js)])
            out['score'] = float(tot)
        if self.which == 'kde':
            def score():
                return sum(flat(m.logpdf(None, dict(o)))
                    for (o,) in rows.values())
            out['score'] = ask(score)
        return out


class Column(Kind):
    """A Dim: one component per cluster, missing cells, inputs."""

    def __init__(self, spec, seed):
        self.t, self.d = spec['cctype'], spec['distargs']
        self.c, self.z = spec['id'], spec['id'] + 50
        self.ins = spec.get('inputs', [])
        Kind.__init__(self, spec, seed)

    def build(self, params=None):
        from cgpm.mixtures.dim import Dim
        d = copy.deepcopy(self.d) or {}
        if self.ins:
            d['inputs'] = {'indexes': list(self.ins), 'stattypes':
                ['normal'] * len(self.ins), 'statargs': [{}] * len(self.ins)}
        return Dim([self.c], [self.z] + list(self.ins), cctype=self.t,
            hypers=(params or {}).get('hypers'), distargs=d, rng=self.rng)

    def params(self, m):
        return dict(hypers=dict(m.hypers))

    def obs(self, us):
        x = float('nan') if us[0] is None else world.cell(
            self.t, self.d, us[0])
        y = {self.z: int(4 * (us[1] if us[1] is not None else .37))}
        for j, i in enumerate(self.ins):
            u = us[(2 + j) % len(us)]
            y[i] = float('nan') if u is None else round(10 * u - 5, 3)
        return ({self.c: x}, y)

    def here(self, o):
        return not math.isnan(o[0][self.c]) and not any(
            math.isnan(o[1][i]) for i in self.ins)

    def fixes(self, m, rows, what):
        vals = set(o[0][self.c] for o in rows.values() if self.here(o))
        if len(vals) < 2 or what != 'hypers':
            return False
        m.transition_hyper_grids([o[0][self.c] for o in rows.values()])
        m.transition_hypers()
        return True

    def bad(self, rng, rows):
        o, y = self.obs([.4, .3, .6, .2])
        v = world.bad_cell(self.t, self.d, rng.randint(0, 999) / 1000.)
        out = [('no cluster', (o, {i: y[i] for i in self.ins}))]
        if v is not None:
            out += [('a value outside its support', ({self.c: v}, y))] * 2
        if self.ins:
            out.append(('a missing input', (o, {self.z: y[self.z]})))
        return out

    def answers(self, m, rows, seed):
        live = set(o[1][self.z] for o in rows.values())
        A = {'here': sorted(m.Zr.items()), 'nan': sorted(m.Zi.items()),
            'score': ask(lambda: float(sum(m.clusters[k].logpdf_score()
                for k in m.clusters))),
            'stats': {k: dict(m.clusters[k].get_suffstats())
                for k in m.clusters if k in live}}
        rng = random.Random(seed)
        for k in sorted(live) + [77]:
            o, y = self.obs([rng.randint(0, 999) / 1000. for _ in range(5)])
            y[self.z] = k
            A['logpdf', k] = ask(lambda: m.logpdf(-1, o, None, y))
            self.rng.seed((seed + k) % 2**31)
            A['draw', k] = ask(lambda: m.simulate(-1, [self.c], None, y))
        return A

    def known(self, m, rows):
        out = {'here': sorted((r, o[1][self.z]) for r, o in rows.items()
            if self.here(o)), 'nan': sorted((r, o[1][self.z])
                for r, o in rows.items() if not self.here(o))}
        tot = 0.
        for k in sorted(set(o[1][self.z] for o in rows.values())):
            mine = [o for o in rows.values() if o[1][self.z] == k
                and self.here(o)]
            xs = [o[0][self.c] for o in mine]
            if self.t == 'linear_regression':
                Y = [ref.dummy([o[1][i] for i in self.ins],
                    [None] * len(self.ins)) for o in mine]
                tot += ref.linreg_marginal(None, hypers_of(m), xs, Y)
            else:
                tot += ref.marginal(self.t, self.d, hypers_of(m), xs)
        out['score'] = tot
        return out


def hypers_of(m):
    return m.aux_model.get_hypers()


def flat(x):
    x = np.ravel(x)
    return float(x[0]) if len(x) == 1 else x.tolist()


class Mixture(Kind):
    """A View over a fixed table whose rows come and go in any order."""

    saves = True

    def __init__(self, spec, seed):
        self.cols = spec['cols']
        self.n = spec['rows']
        self.z = 10**7
        self.X = {c['id']: world.data_of(c) for c in self.cols}
        Kind.__init__(self, spec, seed)

    def build(self, params=None):
        from cgpm.mixtures.view import View
        return View({c: list(x) for c, x in self.X.items()},
            outputs=[self.z] + [c['id'] for c in self.cols],
            cctypes=[c['cctype'] for c in self.cols],
            distargs=[copy.deepcopy(c['distargs']) for c in self.cols],
            Zr=list(self.spec['Zr']), rng=self.rng)

    def start(self):
        return {r: ({**{c: x[r] for c, x in self.X.items()},
            self.z: self.spec['Zr'][r]},) for r in range(self.n)}

    def rebuild(self, rows):
        return None

    def absent(self, rows):
        return [r for r in range(self.n) if r not in rows]

    def fixes(self, m, rows, what):
        if what == 'params':
            m.transition_crp_alpha()
        else:
            m.transition_dim_hypers()
        return True

    def bad(self, rng, rows):
        c = rng.choice(self.cols)
        v = world.bad_cell(c['cctype'], c['distargs'], rng.random())
        if v is None:
            return []
        r = rng.randrange(self.n)
        o = {k: x[r] for k, x in self.X.items()}
        k = rng.choice([0, 1, 9])
        return [('a value outside its support', ({**o, c['id']: v,
            self.z: k},)), ('a value outside its support, no cluster',
                ({**o, c['id']: v},)),
            ('a row without a column', ({q: v for q, v in o.items()
                if q != c['id']} | {self.z: k},))]

    def answers(self, m, rows, seed):
        return {
            'Zr': sorted(m.Zr().items()), 'Nk': dict(m.Nk()),
            'alpha': float(m.alpha()),
            'score': ask(m.logpdf_score),
            'prior': ask(m.logpdf_prior),
            'dims': {c: dict(Zr=sorted(d.Zr.items()), Zi=sorted(d.Zi.items()),
                k=sorted(d.clusters), hypers=dict(d.hypers),
                stats={k: dict(g.get_suffstats())
                    for k, g in d.clusters.items()})
                for c, d in m.dims.items()}}

    def known(self, m, rows):
        Z = {r: o[0][self.z] for r, o in rows.items()}
        n = {}
        for k in Z.values():
            n[k] = n.get(k, 0) + 1
        dims, lik = {}, 0.
        for c in self.cols:
            x, d = self.X[c['id']], m.dims[c['id']]
            for k in n:
                lik += ref.marginal(c['cctype'], c['distargs'], d.hypers,
                    [x[r] for r in sorted(Z) if Z[r] == k
                        and not math.isnan(x[r])])
            dims[c['id']] = dict(
                Zr=sorted((r, Z[r]) for r in Z if not math.isnan(x[r])),
                Zi=sorted((r, Z[r]) for r in Z if math.isnan(x[r])),
                k=sorted(n))
        prior = ref.crp(list(n.values()), m.alpha())
        return dict(Zr=sorted(Z.items()), Nk=n, prior=prior,
            score=prior + lik, dims=dims)


KINDS = dict(linreg=Regression, ols=Regression, forest=Regression, knn=Rows,
    kde=Rows, factor=Rows, column=Column, view=Mixture, crp=Chain)


def gen_spec(rng):
    kind = rng.choice(PRIMS + ['linreg', 'ols', 'knn', 'kde', 'factor'] * 2
        + ['column'] * 4 + ['view'] * 3 + ['crp'] + ['forest'] * 3)
    if kind in PRIMS:
        return dict(kind='prim', cctype=kind, id=rng.randint(0, 20),
            distargs=world.gen_distargs(rng, kind))
    if kind == 'crp':
        return dict(kind=kind, id=rng.randint(0, 20))
    if kind == 'column':
        t = rng.choice(world.COLLAPSED + ['linear_regression'] * 2)
        s = dict(kind=kind, cctype=t, id=rng.randint(0, 20),
            distargs=world.gen_distargs(rng, t))
        if t == 'linear_regression':
            s['inputs'] = rng.sample(range(30, 40), rng.randint(1, 2))
        return s
    if kind == 'view':
        init = world.gen_init(rng, world.COLLAPSED, cols=(1, 3), rows=(3, 7))
        kr = rng.randint(1, init['rows'])
        return dict(kind=kind, cols=init['cols'], rows=init['rows'],
            Zr=[2 * rng.randrange(kr) for _ in range(init['rows'])])
    if kind in ('linreg', 'ols', 'forest'):
        n = rng.randint(1, 3)
        ids = rng.sample(range(30), n + 1)
        k = [rng.choice([None, None, 2, 3]) if kind != 'forest' else None
            for _ in range(n)]
        return dict(kind=kind, id=ids[0], inputs=ids[1:], k=k,
            stattypes=['categorical' if a else rng.choice(
                ['numerical', 'normal']) for a in k],
            levels=rng.randint(2, 4))
    n = rng.randint(2, 4)
    s = dict(kind=kind, outputs=rng.sample(range(30), n),
        k=[rng.choice([None, None, 2, 3]) for _ in range(n)])
    if kind == 'knn':
        s.update(K=rng.randint(1, 4), M=rng.choice([None, 1, 2, 4]),
            coarse=rng.random() < .4)
    if kind == 'factor':
        L = s['L'] = rng.randint(1, n // 2)
        s['k'] = [None] * n
        if rng.random() < .7:
            r = lambda: round(rng.uniform(-2, 2), 2)
            s['params'] = dict(mux=[r() for _ in range(n - L)],
                Psi=[[round(rng.uniform(.2, 3), 2) if i == j else 0.
                    for j in range(n - L)] for i in range(n - L)],
                W=[[r() for _ in range(L)] for _ in range(n - L)])
    if kind == 'kde' and rng.random() < .7:
        s['params'] = dict(bw=[round(rng.uniform(.05, .45), 3) if k else
            round(rng.uniform(.2, 2.5), 3) for k in s['k']])
    return s


class P15(core.Prop):
    id = 'P15'
    runs = {'quick': 6000, 'thorough': 400000}
    wall = {'quick': 40., 'thorough': 780.}
    real = ['cgpm.primitives.*', 'cgpm.regressions.*', 'cgpm.knn.mvknn',
        'cgpm.kde.mvkde', 'cgpm.factor.factor', 'cgpm.mixtures.dim',
        'cgpm.mixtures.view', 'cgpm.utils.*', 'scikit-learn', 'statsmodels']
    stub = []
    rule = ('one evaluation = one simulated history of one component model; '
        'distinct = distinct event-log digests with at least two operations')
    assumptions = ['a component is compared with one built afresh with the '
        'same hyperparameters and parameters from the rows it holds, in the '
        'order they were last observed, at a tolerance of 1e-6']

    def prepare(self):
        for p in list(Regression.PATHS.values()) + list(Rows.PATHS.values()):
            load(p)
        from cgpm.utils import config
        for t in PRIMS:
            config.cctype_class(t)

    def gen(self, rng, tier):
        spec = gen_spec(rng)
        missing = rng.choice([0., .15, .4])
        ops, most = [], 12
        if spec['kind'] in ('prim', 'crp', 'linreg', 'ols', 'column') \
                and rng.random() < .1:
            # Many rows first.
            most = rng.choice([30, 60])
            ops = [dict(op='obs', s=rng.randint(1, 10**6), i=j, quiet=True,
                u=[world.gen_u(rng, missing) for _ in range(5)])
                for j in range(most - 4)]
        kinds = rng.choice([['obs', 'obs', 'uninc', 'bad', 'dup', 'absent',
            'fix', 'save', 'load'], ['obs', 'obs', 'obs', 'uninc', 'uninc'],
            ['obs', 'obs', 'obs', 'fix', 'uninc', 'alike', 'save', 'load'],
            ['obs', 'obs', 'obs', 'fix', 'alike']])
        for _ in range(rng.randint(2, 24 if tier == 'thorough' else 16)):
            ops.append(dict(op=rng.choice(kinds), s=rng.randint(1, 10**6),
                i=rng.randrange(100),
                u=[world.gen_u(rng, missing) for _ in range(5)]))
        return dict(spec=spec, seed=rng.randint(1, 10**6), ops=ops,
            sparse=rng.random() < .5, most=most)

    def shrink(self, plan):
        for i, op in enumerate(plan['ops']):
            if any(u is None for u in op['u']):
                new = copy.deepcopy(plan)
                new['ops'][i]['u'] = [.5 if u is None else u
                    for u in op['u']]
                yield new

    def execute(self, plan, ctx):
        spec = plan['spec']
        if spec['kind'] == 'prim':
            kind = Primitive(spec, plan['seed'])
        else:
            kind = KINDS[spec['kind']](spec, plan['seed'])
        name = spec.get('cctype') or spec['kind']
        rows = kind.start() if hasattr(kind, 'start') else {}
        saved = None
        forest = 0
        self.compare(kind, kind.m, rows, 1, ctx, name)
        for op in plan['ops']:
            kind.rng.seed(op['s'])
            o = op['op']
            if o == 'obs':
                if hasattr(kind, 'absent'):
                    free = kind.absent(rows)
                    if not free:
                        continue
                    r = free[op['i'] % len(free)]
                    K = sorted(kind.m.Nk()) or [0]
                    K = K + [K[-1] + 1, K[-1] + 3]
                    obs = ({**{c: x[r] for c, x in kind.X.items()},
                        kind.z: K[op['s'] % len(K)]},)
                else:
                    if len(rows) >= plan.get('most', 12):
                        continue
                    r = op['i'] * 7 if plan['sparse'] else len(rows)
                    if r in rows:
                        continue
                    obs = kind.obs(op['u'])
                given = copy.deepcopy(obs)
                kind.m.incorporate(r, *given)
                ctx.check(core.differ(world.plain(list(given)),
                    world.plain(list(obs))) is None, 'argument-mutated',
                    lambda: 'incorporate changed its argument')
                rows[r] = obs
            elif o == 'uninc':
                if len(rows) < 1:
                    continue
                r = list(rows)[op['i'] % len(rows)]
                kind.m.unincorporate(r)
                del rows[r]
            elif o == 'alike':
                # Every row with the same value goes.
                if not rows:
                    continue
                v = rows[list(rows)[op['i'] % len(rows)]][0]
                c = sorted(v)[0]
                for r in [r for r in rows if rows[r][0].get(c) == v[c]]:
                    kind.m.unincorporate(r)
                    del rows[r]
            elif o in ('bad', 'dup', 'absent'):
                self.rejects(kind, rows, op, ctx, name)
                continue
            elif o == 'fix':
                if spec['kind'] == 'forest' or name == 'random_forest':
                    forest += 1
                    if forest > 2:
                        continue
                what = ['params', 'hypers'][op['i'] % 2]
                twin = kind.twin(rows)
                kind.rng.seed(op['s'])
                if not kind.fixes(kind.m, rows, what):
                    continue
                if twin is not None:
                    kind.rng.seed(op['s'])
                    kind.fixes(twin, rows, what)
                    d = kind.close(kind.answers(kind.m, rows, op['s']),
                        kind.answers(twin, rows, op['s']))
                    ctx.check(d is None, 'inference', lambda: 'inference on '
                        'the %s of a %s holding rows %r ends elsewhere than '
                        'for one that never saw any other: %s' % (what, name,
                            list(rows), d))
                    ctx.probe('twin')
                d = kind.fitted(kind.m, rows, op['s'])
                ctx.check(d is None, 'fitted', lambda: 'inference on a %s '
                    'does not fit the rows %r it holds: %s' % (name,
                        list(rows), d))
            elif o == 'save':
                if not kind.saves:
                    continue
                meta = kind.m.to_metadata()
                if op['i'] % 2:
                    meta = world.json_trip(meta)
                saved = (meta, dict(rows), kind.answers(kind.m, rows,
                    plan['seed']))
            elif o == 'load':
                if saved is None:
                    continue
                meta, was, want = saved
                before = world.plain(meta)
                m = type(kind.m).from_metadata(meta, rng=kind.rng)
                ctx.check(core.differ(before, world.plain(meta)) is None,
                    'metadata-changed', lambda: 'restoring a %s changed the '
                    'saved form: %s' % (name, core.differ(before,
                        world.plain(meta))))
                got = kind.answers(m, was, plan['seed'])
                d = kind.close(got, want)
                ctx.check(d is None, 'restore', lambda: 'a %s restored from '
                    'its saved form answers differently: %s' % (name, d))
                mine = kind.answers(kind.m, rows, 5)
                # Life goes on in the restored model, not in the other.
                old = kind.m
                kind.m = m
                r, extra = self.extra(kind, was, rows)
                if extra is None:
                    m.unincorporate(r)
                else:
                    m.incorporate(r, *copy.deepcopy(extra))
                d = kind.close(kind.answers(old, rows, 5), mine)
                ctx.check(d is None, 'shared', lambda: 'observing a row in a '
                    'restored %s changed the original: %s' % (name, d))
                rows = dict(was)
                rows[r] = extra
                if extra is None:
                    del rows[r]
            ctx.ops += 1
            ctx.log(o, sorted(rows))
            ctx.probe('%s-%s' % (o, name))
            if not op.get('quiet'):
                self.compare(kind, kind.m, rows, op['s'], ctx, name)
            ctx.state((name, len(rows), o))

    def extra(self, kind, was, rows):
        """A row, and an observation of it unless it is to be removed."""
        if hasattr(kind, 'absent'):
            free = kind.absent(was)
            if not free:
                return list(was)[0], None
            return free[-1], ({**{c: x[free[-1]] for c, x in kind.X.items()},
                kind.z: 7},)
        r = next(i for i in range(100, 200) if i not in was
            and i not in rows)
        return r, kind.obs([.45, .25, .7, .9, .1])

    def rejects(self, kind, rows, op, ctx, name):
        rng = random.Random(op['s'])
        if op['op'] == 'absent':
            r = 5000 + op['i']
            what, f = 'removing an absent row', \
                lambda: kind.m.unincorporate(r)
        else:
            if op['op'] == 'dup':
                if not rows:
                    return
                r = list(rows)[op['i'] % len(rows)]
                what, obs = 'a row observed twice', rows[r]
                if hasattr(kind, 'obs') and rng.random() < .5:
                    obs = kind.obs(op['u'])
            else:
                bad = kind.bad(rng, rows)
                if not bad:
                    return
                what, obs = rng.choice(bad)
                r = next(i for i in range(100) if i not in rows)
                if hasattr(kind, 'absent'):
                    free = kind.absent(rows)
                    if not free:
                        return
                    r = free[0]
            f = lambda: kind.m.incorporate(r, *copy.deepcopy(obs))
        before = kind.answers(kind.m, rows, op['s'])
        try:
            f()
        except Exception as e:
            ctx.fault('rejected: ' + what)
            ctx.log('rejected', what, type(e).__name__)
        else:
            ctx.check(False, 'accepted', lambda: '%s accepted %s: row %r'
                % (name, what, r))
        ctx.ops += 1
        d = kind.close(kind.answers(kind.m, rows, op['s']), before)
        ctx.check(d is None, 'rejection-effect', lambda: 'rejecting %s '
            'changed the %s: %s' % (what, name, d))

    def compare(self, kind, m, rows, seed, ctx, name):
        got = kind.answers(m, rows, seed)
        fresh = kind.rebuild(rows)
        if fresh is not None:
            want = kind.answers(fresh, rows, seed)
            d = kind.close(got, want)
            ctx.check(d is None, 'history', lambda: 'a %s holding rows %r '
                'differs from one that never saw any other: %s' % (
                    name, list(rows), d))
        want = kind.known(m, rows)
        d = sub_differ(got, want)
        ctx.check(d is None, 'content', lambda: 'a %s holding rows %r: %s' % (
            name, list(rows), d))
        ctx.log('answers', repr(sorted(map(repr, got)))[:10], len(got))


def sub_differ(got, want):
    """Difference, looking only at what want names."""
    for k in want:
        if isinstance(want[k], dict) and isinstance(got[k], dict) \
                and k == 'dims':
            for c in want[k]:
                d = sub_differ(got[k][c], want[k][c])
                if d:
                    return 'column %r %s' % (c, d)
            continue
        if k == 'score' and isinstance(got[k], (list, tuple)):
            if isinstance(want[k], (list, tuple)):
                continue
        d = core.differ(got[k], want[k], 1e-5, 1e-4)
        if d:
            return '%s: %s, recomputed from the rows' % (k, d)
    return None


PROP = P15()
