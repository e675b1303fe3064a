"""Histories of operations on a real crosscat State, described by JSON plans.

Every operation carries its own seed and arguments that are resolved against
the state at hand, so dropping operations from a plan leaves a valid plan.
"""

import copy
import json
import math

import numpy as np

NAN = float('nan')

COLLAPSED = ['normal', 'lognormal', 'exponential', 'poisson', 'geometric',
    'bernoulli', 'categorical', 'vonmises']
UNCOLLAPSED = ['beta', 'normal_trunc']
DISCRETE = ['bernoulli', 'categorical', 'poisson', 'geometric']
FINITE = ['bernoulli', 'categorical']
# Repeats set the frequency: uncollapsed types cost ten times as much.
PRIMITIVE = COLLAPSED * 4 + UNCOLLAPSED
CONDITIONAL = ['linear_regression', 'random_forest']


def isnan(x):
    return isinstance(x, float) and math.isnan(x) or (
        isinstance(x, np.floating) and math.isnan(float(x)))


def cell(cctype, distargs, u):
    """The value of a column of this type that the number u in [0,1) names."""
    if u is None:
        return NAN
    if cctype in ('normal', 'linear_regression'):
        # Now and then exactly nothing.
        return 0. if .48 <= u < .52 else round(10. * u - 5., 4)
    if cctype == 'lognormal':
        return round(math.exp(3. * u - 1.), 4)
    if cctype == 'exponential':
        return 0. if u < .03 else round(.05 + 5. * u, 4)
    if cctype == 'poisson':
        return float(int(8 * u))
    if cctype == 'geometric':
        return float(int(6 * u))
    if cctype == 'bernoulli':
        return float(int(2 * u))
    if cctype in ('categorical', 'random_forest'):
        return float(int(int(distargs['k']) * u))
    if cctype == 'vonmises':
        return round(.05 + 6.18 * u, 4)
    if cctype == 'beta':
        return round(.02 + .96 * u, 4)
    if cctype == 'normal_trunc':
        l, h = distargs['l'], distargs['h']
        if u < .03 or u >= .97:
            return float(l if u < .5 else h)
        return round(l + (h - l) * (.02 + .96 * u), 4)
    raise KeyError(cctype)


def bad_cell(cctype, distargs, u):
    """A value outside the support of the type (None if there is none)."""
    if cctype in ('normal', 'linear_regression'):
        return None
    if cctype in ('lognormal', 'exponential'):
        return -1. - round(u, 3)
    if cctype in ('poisson', 'geometric'):
        return [-2., 1.5][int(2 * u)]
    if cctype == 'bernoulli':
        return [2., -1., .5][int(3 * u)]
    if cctype in ('categorical', 'random_forest'):
        return [float(distargs['k']), -1., .5][int(3 * u)]
    if cctype == 'vonmises':
        return [7., -.5][int(2 * u)]
    if cctype == 'beta':
        return [1.5, -.5][int(2 * u)]
    if cctype == 'normal_trunc':
        return distargs['h'] + 1. + round(u, 3)
    raise KeyError(cctype)


def fits(cctype, distargs, values):
    """Are all observed values in the support of the type?"""
    vs = [v for v in values if not isnan(v)]
    def integral(v):
        return float(v) == int(v)
    if cctype in ('normal', 'linear_regression'):
        return True
    if cctype in ('lognormal', 'exponential'):
        return all(v > 0 for v in vs)
    if cctype in ('poisson', 'geometric'):
        return all(integral(v) and v >= 0 for v in vs)
    if cctype == 'bernoulli':
        return all(v in (0, 1) for v in vs)
    if cctype in ('categorical', 'random_forest'):
        return all(integral(v) and 0 <= v < distargs['k'] for v in vs)
    if cctype == 'vonmises':
        return all(0 <= v <= 2 * math.pi for v in vs)
    if cctype == 'beta':
        return all(0 < v < 1 for v in vs)
    if cctype == 'normal_trunc':
        return all(distargs['l'] <= v <= distargs['h'] for v in vs)
    raise KeyError(cctype)


def gen_distargs(rng, cctype):
    if cctype in ('categorical', 'random_forest'):
        return {'k': rng.randint(2, 4)}
    if cctype == 'normal_trunc':
        return {'l': rng.choice([0., 1., -3.]), 'h': rng.choice([4., 9.])}
    return None


def gen_u(rng, missing=0.):
    if missing and rng.random() < missing:
        return None
    return rng.randint(0, 999) / 1000.


def gen_us(rng, n, missing, clusters=None):
    """u's for one column; rows 0 and 1 observed and distinct."""
    us = []
    centres = [rng.random() for _ in range(clusters)] if clusters else None
    for i in range(n):
        if i >= 2 and rng.random() < missing:
            us.append(None)
        elif centres:
            c = rng.choice(centres) + .04 * (rng.random() - .5)
            us.append(round(min(.999, max(0., c)), 3))
        else:
            us.append(gen_u(rng))
    if n >= 1 and us[0] is None:
        us[0] = .2
    if n >= 2 and (us[1] is None or abs(us[0] - us[1]) < .06):
        us[1] = round((us[0] + .5) % 1., 3)
    return us


def gen_init(rng, types=PRIMITIVE, cols=(1, 5), rows=(2, 8), missing=None,
        zero_based=None, constraints=False, force_types=None):
    """A random initial model."""
    n_cols = rng.randint(*cols)
    n_rows = rng.randint(*rows)
    if missing is None:
        missing = rng.choice([0., 0., .15, .4])
    if zero_based is None:
        zero_based = rng.random() < .6
    ids = list(range(n_cols)) if zero_based \
        else rng.sample(range(0, 30), n_cols)
    columns = []
    for j, c in enumerate(ids):
        t = rng.choice(types)
        if force_types and j < len(force_types):
            t = force_types[j]
        columns.append(dict(id=c, cctype=t, distargs=gen_distargs(rng, t),
            u=gen_us(rng, n_rows, missing,
                rng.choice([None, None, 2, 3]))))
    init = dict(cols=columns, rows=n_rows, seed=rng.randint(1, 10**6),
        missing=missing)
    if rng.random() < .4:
        k = rng.randint(1, n_cols)
        init['Zv'] = [rng.randrange(k) for _ in ids]
        if rng.random() < .6:
            init['Zrv'] = {}
            for v in sorted(set(init['Zv'])):
                kr = rng.randint(1, n_rows)
                z = [rng.randrange(kr) for _ in range(n_rows)]
                if rng.random() < .5:       # sparse cluster names
                    z = [3 * a for a in z]
                init['Zrv'][str(v)] = z
    if rng.random() < .3:
        init['alpha'] = round(.2 + 3 * rng.random(), 3)
    return init


def data_of(col):
    if 'data' in col:
        return list(col['data'])
    return [cell(col['cctype'], col['distargs'], u) for u in col['u']]


def build(init, rng=None):
    """A real State from an initial description."""
    from cgpm.crosscat.state import State
    data = [data_of(c) for c in init['cols']]
    X = np.asarray(data, dtype=float).T
    outputs = [c['id'] for c in init['cols']]
    kw = {}
    if init.get('Zv') is not None:
        kw['Zv'] = dict(zip(outputs, init['Zv']))
        if init.get('Zrv') is not None:
            kw['Zrv'] = {int(v): list(z) for v, z in init['Zrv'].items()}
    if init.get('alpha') is not None:
        kw['alpha'] = init['alpha']
    if any(c.get('hypers') for c in init['cols']):
        kw['hypers'] = [copy.deepcopy(c.get('hypers')) for c in init['cols']]
    for k in ('Cd', 'Ci'):
        if init.get(k):
            kw[k] = [list(b) for b in init[k]] if k == 'Cd' \
                else [list(b) if init.get('Ci_lists') else tuple(b)
                    for b in init[k]]
    kw.update(outputs=outputs, cctypes=[c['cctype'] for c in init['cols']],
        distargs=[copy.deepcopy(c['distargs']) for c in init['cols']])
    state = State(X, rng=np.random.RandomState(init['seed'])
        if rng is None else rng, **kw)
    # What the client passed is the client's: it is gone now.
    X.fill(0)
    for v in kw.values():
        wipe(v)
    return state


def wipe(x):
    """Empty the lists and dicts in x."""
    if isinstance(x, dict):
        for v in x.values():
            wipe(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            wipe(v)
        del x[:]


def table_of(init):
    return {c['id']: data_of(c) for c in init['cols']}


# --------------------------------------------------------------------------
# Observation of a state

def plain(x):
    """Plain comparable structure."""
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return '<%s>' % (type(x).__name__,)


def py2_json(x):
    """numpy integers are ints in Python 2, so its json accepts them."""
    if isinstance(x, dict):
        return {int(k) if isinstance(k, np.integer) else k: py2_json(v)
            for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [py2_json(v) for v in x]
    if isinstance(x, (np.integer, np.bool_)):
        return int(x)
    return x


def json_trip(m):
    return json.loads(json.dumps(py2_json(m)))


def snapshot(state, rng=False):
    """Everything observable about a state, as a nested plain structure."""
    s = dict(
        X={c: list(state.X[c]) for c in state.X},
        outputs=list(state.outputs),
        Zv=dict(state.Zv()), Nv=dict(state.Nv()), alpha=float(state.alpha()),
        Cd=plain(state.Cd), Ci=plain(state.Ci),
        composite=bool(state.is_composite()),
        hooked=sorted(state.hooked_cgpms),
        diagnostics=plain(dict(state.diagnostics)),
        views={})
    for v, view in state.views.items():
        dims = {}
        for c, d in view.dims.items():
            dims[c] = dict(cctype=d.name(), hypers=plain(dict(d.hypers)),
                distargs=plain(dict(d.distargs)), inputs=list(d.inputs),
                Zr=dict(d.Zr), Zi=dict(d.Zi),
                clusters={k: dict(suff=plain(dict(g.get_suffstats())),
                    params=plain(dict(g.get_params())),
                    hypers=plain(dict(g.get_hypers())))
                    for k, g in d.clusters.items()})
        s['views'][v] = dict(outputs=sorted(view.outputs), Zr=dict(view.Zr()),
            Nk=dict(view.Nk()), alpha=float(view.alpha()), dims=dims)
    if rng:
        s['rng'] = rng_digest(state.rng)
    return s


def rng_digest(r):
    st = r.get_state()
    return '%s:%d:%s:%r' % (
        hash(bytes(st[1].tobytes())) if False else st[1][:4].tolist(),
        st[2], int(np.sum(st[1].astype(np.uint64)) % 10**9), st[3:])


def fingerprint(state):
    """Structure reached (for counting distinct states)."""
    def canon(Z):
        m = {}
        return tuple(m.setdefault(Z[k], len(m)) for k in sorted(Z))
    return (canon(state.Zv()), tuple(state.cctypes()),
        tuple(canon(state.view_for(c).Zr()) for c in sorted(state.outputs)))


# --------------------------------------------------------------------------
# Operations

class Skip(Exception):
    """The operation does not apply at this state."""


def numeric(e):
    """Did the query fail for lack of floating point range?  Heavy tailed
    predictive draws used as evidence or inputs get there."""
    return isinstance(e, (OverflowError, ZeroDivisionError,
        FloatingPointError, np.linalg.LinAlgError)) or (
        isinstance(e, ValueError) and any(s in str(e) for s in (
            'math domain', 'Zero density', 'infs or NaNs', 'too large',
            'NaN', 'non-finite', 'infinity', 'cannot convert float')))


class World(object):
    """A live model, a model table, and the operations of a history."""

    make_rng = np.random.RandomState

    def __init__(self, init, ctx, make_rng=None):
        self.ctx = ctx
        self.init = init
        if make_rng is not None:
            self.make_rng = make_rng
        self.state = build(init, self.make_rng(init['seed']))
        self.table = table_of(init)
        self.types = {c['id']: (c['cctype'], c['distargs'])
            for c in init['cols']}
        self.tokens = {}
        self.iters = {}

    # -- helpers ----------------------------------------------------------
    def cols(self):
        return list(self.state.outputs)

    def n_rows(self):
        return len(self.table[next(iter(self.table))])

    def ctype(self, c):
        return self.types[c]

    def conditional_dims(self):
        return [c for c in self.cols() if self.types[c][0] in CONDITIONAL]

    def dim_inputs(self, c):
        """Input columns of a conditional column."""
        return list(self.state.dim_for(c).inputs[1:])

    def dim_inputs_of(self, c):
        return self.dim_inputs(c) if self.types[c][0] in CONDITIONAL else []

    def used_inputs(self):
        return set(i for c in self.conditional_dims()
            for i in self.dim_inputs(c))

    def pick(self, seq, i):
        seq = list(seq)
        if not seq:
            raise Skip()
        return seq[i % len(seq)]

    def reseed(self, s):
        self.state.rng.seed(s)

    # -- edits --------------------------------------------------------------
    def apply(self, op):
        """Run one op; returns a result or raises Skip."""
        self.reseed(op.get('s', 1))
        f = getattr(self, 'op_' + op['op'])
        return f(op)

    def observation(self, us):
        obs = {}
        for j, c in enumerate(self.cols()):
            u = us[j % len(us)]
            if u is not None:
                obs[c] = cell(self.types[c][0], self.types[c][1], u)
        return obs

    def op_inc_row(self, op):
        if self.n_rows() >= op.get('max', 12):
            raise Skip()
        obs = self.observation(op['u'])
        given = dict(obs)
        rowid = self.n_rows()
        if op.get('z') is not None:
            for j, v in enumerate(sorted(self.state.views)):
                z = op['z'][j % len(op['z'])]
                if z is None:
                    continue
                view = self.state.views[v]
                K = sorted(view.Nk())
                K = K + [K[-1] + 1]
                given[view.outputs[0]] = K[z % len(K)]
        want = {v: given[self.state.views[v].outputs[0]]
            for v in self.state.views
            if self.state.views[v].outputs[0] in given}
        passed = dict(given)
        self.state.incorporate(rowid, passed)
        self.ctx.check(passed == given, 'argument-mutated',
            lambda: 'incorporate changed its argument: %r -> %r' % (
                given, passed))
        for c in self.cols():
            self.table[c].append(obs.get(c, NAN))
        for v, k in want.items():
            self.ctx.check(self.state.views[v].Zr(rowid) == k,
                'cluster-not-honoured',
                lambda: 'row %d put in cluster %r of view %r, %r asked' % (
                    rowid, self.state.views[v].Zr(rowid), v, k))
        return rowid

    def op_inc_rows(self, op):
        """Several rows put in at once."""
        if self.n_rows() >= op.get('max', 12):
            raise Skip()
        n = self.n_rows()
        obs = [self.observation(us) for us in op['us']]
        rowids = list(range(n, n + len(obs)))
        passed, ids = copy.deepcopy(obs), list(rowids)
        self.state.incorporate_bulk(ids, passed)
        self.ctx.check(passed == obs and ids == rowids, 'argument-mutated',
            lambda: 'incorporate_bulk changed its arguments: %r -> %r' % (
                obs, passed))
        for o in obs:
            for c in self.cols():
                self.table[c].append(o.get(c, NAN))
        return rowids

    def op_uninc_row(self, op):
        if self.n_rows() <= 2:
            raise Skip()
        self.state.unincorporate(self.n_rows() - 1)
        for c in self.cols():
            self.table[c].pop()

    def op_inc_dim(self, op):
        if len(self.cols()) >= op.get('max', 6):
            raise Skip()
        if self.state.Cd or self.state.Ci:
            raise Skip()
        if self.conditional_dims() and op.get('v') is None:
            raise Skip()
        col = self.pick([i for i in range(31)
            if i not in self.state.outputs], op['id'])
        T = [cell(op['cctype'], op['distargs'], op['u'][i % len(op['u'])])
            for i in range(self.n_rows())]
        for i in range(2):
            if isnan(T[i]):
                T[i] = cell(op['cctype'], op['distargs'], .2 + .5 * i)
        if T[0] == T[1]:
            T[0] = cell(op['cctype'], op['distargs'], .2)
            T[1] = cell(op['cctype'], op['distargs'], .7)
        v = op.get('v')
        if v is not None:
            V = sorted(self.state.views)
            v = (V + [V[-1] + 1])[v % (len(V) + 1)]
        passed = list(T)
        self.state.incorporate_dim(passed, [col], cctype=op['cctype'],
            distargs=copy.deepcopy(op['distargs']), v=v)
        self.ctx.check(differ_none(passed, T), 'argument-mutated',
            'incorporate_dim changed the data it was given')
        if op.get('scribble'):
            passed[0] = 12345.
            passed.append(3.)
        self.table[col] = list(T)
        self.types[col] = (op['cctype'], op['distargs'])
        if v is not None:
            self.ctx.check(self.state.Zv(col) == v, 'view-not-honoured',
                lambda: 'column %r in view %r, asked %r' % (
                    col, self.state.Zv(col), v))
        return col

    def op_uninc_dim(self, op):
        cols = [c for c in self.cols() if c not in self.used_inputs()
            and not any(c in b for b in self.state.Cd)
            and not any(c in b for b in self.state.Ci)]
        if len(self.cols()) < 2:
            raise Skip()
        col = self.pick(cols, op['col'])
        if any(col in g.inputs for g in self.state.hooked_cgpms.values()):
            raise Skip()
        self.state.unincorporate_dim(col)
        del self.table[col]
        del self.types[col]
        return col

    def op_force(self, op):
        used = self.used_inputs() if op.get('no_inputs') else ()
        cells = [(r, c) for r in range(self.n_rows()) for c in self.cols()
            if isnan(self.table[c][r]) and c not in used]
        if not cells:
            raise Skip()
        r = cells[op['cell'] % len(cells)][0]
        mine = [c for (q, c) in cells if q == r]
        obs = {}
        for j, c in enumerate(mine):
            u = op['u'][j % len(op['u'])]
            if u is not None:
                obs[c] = cell(self.types[c][0], self.types[c][1], u)
        if not obs:
            raise Skip()
        given = dict(obs)
        self.state.force_cell(r, obs)
        self.ctx.check(obs == given, 'argument-mutated',
            'force_cell changed its argument')
        for c in given:
            self.table[c][r] = given[c]
        return (r, sorted(given))

    def missing_rows(self, us):
        """(rowids, observations) for missing cells, in arbitrary order; a
        row may occur twice, with different cells."""
        rowids, queries, taken = [], [], set()
        rows = [r for r in range(self.n_rows())
            if any(isnan(self.table[c][r]) for c in self.cols())]
        for k, us_k in us:
            if not rows:
                break
            r = rows[k % len(rows)]
            q = {}
            for j, c in enumerate(self.cols()):
                u = us_k[j % len(us_k)]
                if u is not None and isnan(self.table[c][r]) \
                        and (r, c) not in taken:
                    taken.add((r, c))
                    q[c] = cell(self.types[c][0], self.types[c][1], u)
            if q:
                rowids.append(r)
                queries.append(q)
        return rowids, queries

    def op_forces(self, op):
        """Missing cells of several rows set at once."""
        rowids, queries = self.missing_rows(op['us'])
        if not queries:
            raise Skip()
        passed, ids = copy.deepcopy(queries), list(rowids)
        self.state.force_cell_bulk(ids, passed)
        self.ctx.check(passed == queries and ids == rowids,
            'argument-mutated', lambda: 'force_cell_bulk changed its '
            'arguments: %r -> %r' % (queries, passed))
        for r, q in zip(rowids, queries):
            for c in q:
                self.table[c][r] = q[c]
        return list(zip(rowids, [sorted(q) for q in queries]))

    def op_cctype(self, op):
        col = self.pick(self.cols(), op['col'])
        t, d = op['cctype'], op['distargs']
        if col in self.used_inputs():
            raise Skip()
        if not fits(t, d, self.table[col]):
            raise Skip()
        if t == 'vonmises':
            obs = [v for v in self.table[col] if not isnan(v)]
            if len(set(obs)) < 2:
                raise Skip()
        passed = copy.deepcopy(d)
        if t in CONDITIONAL:
            if self.state.Cd or self.state.Ci:
                pass
            view = self.state.view_for(col)
            cand = [c for c in sorted(view.dims) if c != col
                and self.types[c][0] not in CONDITIONAL]
            if not cand:
                raise Skip()
            if op.get('inputs') is not None:
                sel = sorted(set(cand[i % len(cand)] for i in op['inputs']))
                passed = dict(passed or {}, inputs=list(sel))
        self.state.update_cctype(col, t, passed)
        self.types[col] = (t, d)
        return (col, t)

    # -- inference ------------------------------------------------------------
    def op_kernel(self, op):
        st = self.state
        k = op['kernel']
        sub = op.get('sub')
        cols = rows = None
        if sub is not None:
            cs = self.cols()
            cols = [cs[i % len(cs)] for i in sub]
            cols = list(dict.fromkeys(cols))
        if op.get('rows') is not None:
            rows = list(dict.fromkeys(
                i % self.n_rows() for i in op['rows']))
        if k == 'columns' and (self.conditional_dims() or st.Cd):
            raise Skip()
        if op.get('generic'):
            st.transition(N=op.get('N', 1), kernels=[k], cols=cols,
                rowids=rows, progress=False, checkpoint=op.get('ckpt'))
            return
        if k == 'alpha':
            st.transition_crp_alpha()
        elif k == 'view_alphas':
            st.transition_view_alphas(cols=cols)
        elif k == 'column_params':
            st.transition_dim_params(cols=cols)
        elif k == 'column_hypers':
            st.transition_dim_hypers(cols=cols)
        elif k == 'rows':
            st.transition_view_rows(cols=cols, rows=rows)
        elif k == 'columns':
            st.transition_dims(cols=cols, m=op.get('m', 1))
        elif k == 'grids':
            st.transition_dim_grids(cols=cols)
        else:
            raise KeyError(k)

    def op_transition(self, op):
        ks = list(op['kernels'])
        if 'columns' in ks and (self.conditional_dims() or self.state.Cd):
            ks.remove('columns')
        if not ks:
            raise Skip()
        ck = op.get('ckpt')
        if self.state.Ci:
            ck = None
        self.state.transition(N=op.get('N', 1), kernels=ks, progress=False,
            checkpoint=ck)

    # -- queries ------------------------------------------------------------
    def resolve_query(self, op):
        """(rowid, target columns, constraints) of a query op."""
        cols = self.cols()
        conditional = self.state.is_composite()
        tgt = list(dict.fromkeys(cols[i % len(cols)] for i in op['t']))
        row = op.get('row')
        if row is not None:
            row = row % self.n_rows()
            # An observed row: targets are its missing cells.
            tgt = [c for c in cols if isnan(self.table[c][row])]
            if not tgt:
                row = None
                tgt = list(dict.fromkeys(cols[i % len(cols)]
                    for i in op['t']))
        ev = {}
        rest = [c for c in cols if c not in tgt]
        if row is not None:
            # Evidence on an observed row may only restate observed cells or
            # set missing ones.
            for i in op.get('e', []):
                miss = [c for c in rest if isnan(self.table[c][row])]
                if miss:
                    c = miss[i % len(miss)]
                    ev[c] = cell(self.types[c][0], self.types[c][1],
                        op['eu'][i % len(op['eu'])])
        else:
            for i in op.get('e', []):
                if rest:
                    c = rest[i % len(rest)]
                    ev[c] = cell(self.types[c][0], self.types[c][1],
                        op['eu'][i % len(op['eu'])])
        return row, tgt, ev

    def op_logpdf(self, op):
        row, tgt, ev = self.resolve_query(op)
        targets = {c: cell(self.types[c][0], self.types[c][1],
            op['tu'][j % len(op['tu'])]) for j, c in enumerate(tgt)}
        return self.state.logpdf(row if row is not None else -1, targets, ev)

    def op_simulate(self, op):
        row, tgt, ev = self.resolve_query(op)
        return self.state.simulate(
            row if row is not None else -1, tgt, ev, N=op.get('N'))

    def op_score(self, op):
        if self.state.Ci:
            return self.state.logpdf_likelihood()
        return self.state.logpdf_score()

    def op_dependence(self, op):
        return self.state.dependence_probability_pairwise().tolist()

    def op_similarity(self, op):
        return self.state.row_similarity_pairwise().tolist()

    def op_relevance(self, op):
        col = self.pick(self.cols(), op['col'])
        n = self.n_rows()
        target = op['target'] % n
        rows = list(dict.fromkeys(i % n for i in op['rows']))
        hyp = []
        view = self.state.view_for(col)
        for us in op.get('hyp', []):
            h = {}
            for j, c in enumerate(self.cols()):
                u = us[j % len(us)]
                if u is not None:
                    h[c] = cell(self.types[c][0], self.types[c][1], u)
            hyp.append(h)
        return self.state.relevance_probability(target, rows, col,
            hypotheticals=hyp or None)

    def op_mi(self, op):
        cols = self.cols()
        if len(cols) < 2:
            raise Skip()
        a = cols[op['a'] % len(cols)]
        b = cols[op['b'] % len(cols)]
        if a == b and not op.get('entropy'):
            b = cols[(op['b'] + 1) % len(cols)]
        cons = {}
        rest = [c for c in cols if c not in (a, b)]
        if rest and op.get('c') is not None:
            c = rest[op['c'] % len(rest)]
            cons[c] = None if op.get('marg') else \
                cell(self.types[c][0], self.types[c][1], op['cu'])
        try:
            return self.state.mutual_information([a], [b], cons or None,
                T=2, N=3, progress=False)
        except Exception as e:
            if not numeric(e):
                raise
            return 'numeric %s' % (type(e).__name__,)

    # -- save and restore ---------------------------------------------------
    def op_restore(self, op):
        from cgpm.crosscat.state import State
        m = self.state.to_metadata()
        if op.get('json'):
            m = json_trip(m)
        self.state = State.from_metadata(m,
            rng=self.make_rng(op.get('s', 1)))


def differ_none(a, b):
    from .core import differ
    return differ(a, b) is None


EDITS = ['inc_row', 'inc_row', 'uninc_row', 'inc_dim', 'uninc_dim', 'force',
    'cctype']
KERNELS = ['alpha', 'view_alphas', 'column_params', 'column_hypers', 'rows',
    'columns', 'rows', 'columns']
QUERIES = ['logpdf', 'simulate', 'score', 'dependence', 'similarity',
    'relevance', 'mi']


def gen_op(rng, kind, types=PRIMITIVE, missing=.2, conditional=True):
    """A random operation of the given kind."""
    op = dict(op=kind, s=rng.randint(1, 10**6))
    if kind == 'inc_row':
        op['u'] = [gen_u(rng, missing) for _ in range(6)]
        if rng.random() < .35:
            op['z'] = [rng.choice([None, 0, 1, 2, 3]) for _ in range(3)]
    elif kind == 'inc_rows':
        op['us'] = [[gen_u(rng, missing) for _ in range(6)]
            for _ in range(rng.randint(1, 3))]
    elif kind == 'forces':
        op['us'] = [(rng.randrange(60), [gen_u(rng, .3) for _ in range(6)])
            for _ in range(rng.randint(1, 4))]
    elif kind == 'inc_dim':
        t = rng.choice(types)
        op.update(id=rng.randrange(40), cctype=t,
            distargs=gen_distargs(rng, t),
            u=[gen_u(rng, missing) for _ in range(12)],
            v=rng.choice([None, 0, 1, 2, 3]), scribble=rng.random() < .5)
    elif kind == 'uninc_dim':
        op['col'] = rng.randrange(12)
    elif kind == 'force':
        op.update(cell=rng.randrange(60),
            u=[gen_u(rng, .3) for _ in range(5)])
    elif kind == 'cctype':
        pool = list(types)
        if conditional:
            pool = pool + ['linear_regression'] * (len(pool) // 3) \
                + ['random_forest'] * (len(pool) // 8)
        t = rng.choice(pool)
        op.update(col=rng.randrange(12), cctype=t,
            distargs=gen_distargs(rng, t))
        if t in CONDITIONAL and rng.random() < .5:
            op['inputs'] = [rng.randrange(6) for _ in range(rng.randint(1, 3))]
    elif kind == 'kernel':
        op['kernel'] = rng.choice(KERNELS + ['grids'])
        if rng.random() < .4:
            op['sub'] = [rng.randrange(6) for _ in range(rng.randint(1, 3))]
        if op['kernel'] == 'rows' and rng.random() < .4:
            op['rows'] = [rng.randrange(12) for _ in range(rng.randint(1, 4))]
        if op['kernel'] == 'columns':
            op['m'] = rng.choice([1, 1, 2, 3])
        if op['kernel'] not in ('grids',) and rng.random() < .2:
            op['generic'] = True
            op['N'] = rng.randint(1, 2)
    elif kind == 'transition':
        ks = ['alpha', 'view_alphas', 'column_params', 'column_hypers',
            'rows', 'columns']
        if rng.random() < .5:
            ks = rng.sample(ks, rng.randint(1, 6))
        op.update(kernels=ks, N=rng.randint(1, 2),
            ckpt=rng.choice([None, None, 1, 2]))
    elif kind in ('logpdf', 'simulate'):
        op.update(t=[rng.randrange(6) for _ in range(rng.randint(1, 3))],
            e=[rng.randrange(6) for _ in range(rng.randint(0, 2))],
            eu=[gen_u(rng) for _ in range(3)],
            tu=[gen_u(rng) for _ in range(3)])
        if rng.random() < .4:
            op['row'] = rng.randrange(12)
        if kind == 'simulate':
            op['N'] = rng.choice([None, 1, 2, 4])
    elif kind == 'relevance':
        op.update(col=rng.randrange(6), target=rng.randrange(12),
            rows=[rng.randrange(12) for _ in range(rng.randint(0, 3))],
            hyp=[[gen_u(rng, .3) for _ in range(6)]
                for _ in range(rng.choice([0, 0, 1, 2]))])
    elif kind == 'mi':
        op.update(a=rng.randrange(6), b=rng.randrange(6),
            entropy=rng.random() < .3, marg=rng.random() < .4,
            c=rng.choice([None, 0, 1]), cu=gen_u(rng))
    elif kind == 'restore':
        op['json'] = rng.random() < .5
    return op


def gen_history(rng, n, weights, types=PRIMITIVE, missing=.2,
        conditional=True):
    """n operations; weights: dict kind -> weight.  Swarm: each run keeps a
    random subset of the kinds."""
    kinds = [k for k in weights if weights[k] > 0]
    keep = [k for k in kinds if rng.random() < .75] or kinds
    ws = [weights[k] for k in keep]
    return [gen_op(rng, rng.choices(keep, ws)[0], types, missing, conditional)
        for _ in range(n)]


DEFAULT_WEIGHTS = dict(inc_row=3, uninc_row=2, inc_dim=2, uninc_dim=2,
    force=2, cctype=2, kernel=8, transition=2, restore=1, relevance=1,
    inc_rows=.7, forces=.7)


def shrink_plan(plan):
    """Candidate plans with a simpler initial table and simpler ops."""
    init = plan.get('init')
    if init:
        n = len(init['cols'])
        if n > 1:
            for j in range(n - 1, -1, -1):
                if init.get('Cd') or init.get('Ci'):
                    continue
                new = copy.deepcopy(plan)
                del new['init']['cols'][j]
                if new['init'].get('Zv') is not None:
                    del new['init']['Zv'][j]
                    if new['init'].get('Zrv') is not None:
                        new['init']['Zrv'] = {v: z for v, z
                            in new['init']['Zrv'].items()
                            if int(v) in new['init']['Zv']}
                yield new
        if init['rows'] > 2:
            new = copy.deepcopy(plan)
            new['init']['rows'] -= 1
            for c in new['init']['cols']:
                c['u'] = c['u'][:-1]
            if new['init'].get('Zrv') is not None:
                new['init']['Zrv'] = {v: z[:-1]
                    for v, z in new['init']['Zrv'].items()}
            yield new
        for j, c in enumerate(init['cols']):
            if c['cctype'] not in ('normal',):
                new = copy.deepcopy(plan)
                new['init']['cols'][j].update(cctype='normal', distargs=None)
                yield new
            if any(u is None for u in c['u']):
                new = copy.deepcopy(plan)
                new['init']['cols'][j]['u'] = [
                    .5 if u is None else u for u in c['u']]
                yield new
        for k in ('Zrv', 'alpha'):
            if init.get(k) is not None:
                new = copy.deepcopy(plan)
                del new['init'][k]
                yield new
    for i, op in enumerate(plan.get('ops', [])):
        for k in ('z', 'sub', 'generic', 'row', 'hyp', 'inputs', 'ckpt'):
            if op.get(k):
                new = copy.deepcopy(plan)
                new['ops'][i].pop(k)
                yield new
