"""P14: composed models answer as the product of their parts."""

import copy
import itertools
import math
import random
import zlib

import numpy as np
from scipy import stats

from .. import core, ref, world

NAN = float('nan')
INF = float('inf')
FIRST = 100      # component variables
OUTSIDE = 500    # variables no component explains


class Fault(Exception):
    """Injected: a component fails."""


def bucket(x):
    return int(math.floor(float(x) * 1.7)) % 4


class Stub(object):
    """A component with tabulated conditional distributions.  It records how
    it is called, and fails when told to."""

    def __init__(self, outputs, inputs, levels=(2,), table=1, sharp=False,
            rng=None, fixed=None):
        self.outputs, self.inputs = list(outputs), list(inputs)
        self.levels, self.table, self.sharp = list(levels), table, sharp
        self.rng = rng
        self.calls, self.fail, self.moved = [], None, 0
        self.cache = {}

    def probs(self, inputs):
        key = tuple(bucket(inputs[i]) for i in self.inputs)
        if key not in self.cache:
            r = random.Random(zlib.crc32(repr((self.table, key)).encode()))
            p = np.array([.25 + r.random() for _ in range(
                int(np.prod(self.levels)))])
            if self.sharp:
                for j in range(len(p)):
                    if r.random() < .4:
                        p[j] = 0.
                if not p.sum():
                    p[r.randrange(len(p))] = 1.
            self.cache[key] = (p / p.sum()).reshape(self.levels)
        return self.cache[key]

    def slab(self, given, inputs):
        """Probabilities of the outputs not given."""
        p = self.probs(inputs)
        ix = []
        for q, k in zip(self.outputs, self.levels):
            if q in given:
                x = given[q]
                if not (x == int(x) and 0 <= x < k):
                    return None
                ix.append(int(x))
            else:
                ix.append(slice(None))
        return p[tuple(ix)]

    def note(self, what, rowid, targets, constraints, inputs):
        call = [what, rowid, copy.copy(targets), dict(constraints or {}),
            dict(inputs or {}), None]
        self.calls.append(call)
        if self.fail is not None:
            self.fail -= 1
            if self.fail < 0:
                self.fail = None
                raise Fault('component %r' % (self.outputs,))
        return call

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        self.note('logpdf', rowid, targets, constraints, inputs)
        constraints = constraints or {}
        p = self.slab(dict(constraints) | dict(targets), inputs)
        joint = 0. if p is None else float(np.sum(p))
        p = self.slab(constraints, inputs)
        base = 0. if p is None else float(np.sum(p))
        if not joint or not base:
            return -INF
        return math.log(joint / base)

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        if N is not None:
            return [self.simulate(rowid, targets, constraints, inputs)
                for _ in range(N)]
        call = self.note('simulate', rowid, targets, constraints, inputs)
        constraints = constraints or {}
        free = [q for q in self.outputs if q not in constraints]
        p = self.slab(constraints, inputs)
        if p is None or not np.sum(p):
            # No such case: any completion will do, its weight is zero.
            draw = {q: 0 for q in free}
        else:
            flat = np.ravel(p)
            j = int(np.searchsorted(np.cumsum(flat / flat.sum()),
                self.rng.random_sample(), side='right'))
            j = min(j, len(flat) - 1)
            draw = dict(zip(free, (int(i) for i in np.unravel_index(
                j, p.shape)))) if free else {}
        call[5] = {q: draw[q] for q in targets}
        return dict(call[5])

    def incorporate(self, rowid, observation, inputs=None):
        return

    def unincorporate(self, rowid):
        return

    def transition(self, N=None):
        if self.fail is not None:
            self.fail = None
            raise Fault('component %r' % (self.outputs,))
        self.moved += 1

    def to_metadata(self):
        return dict(outputs=list(self.outputs), inputs=list(self.inputs),
            levels=list(self.levels), table=self.table, sharp=self.sharp,
            factory=('dst.props.p14', 'Stub'))

    @classmethod
    def from_metadata(cls, m, rng=None):
        return cls(m['outputs'], m['inputs'], m['levels'], m['table'],
            m['sharp'], rng)


def normal(x, m, s):
    return float(stats.norm.logpdf(x, m, s))


class Part(object):
    """A component under test and what it should be."""

    def __init__(self, spec, rng):
        self.spec, self.kind = spec, spec['kind']
        self.outputs, self.inputs = list(spec['outs']), list(spec['ins'])
        self.levels = dict(zip(self.outputs, spec['levels'])) \
            if spec.get('levels') else {}
        o, i, k = list(self.outputs), list(self.inputs), self.kind
        if k == 'stub':
            self.m = Stub(o, i, spec['levels'], spec['table'], spec['sharp'],
                rng=rng)
            self.ref = Stub(o, i, spec['levels'], spec['table'],
                spec['sharp'])
        elif k == 'twoway':
            from cgpm.dummy.twoway import TwoWay
            self.m = TwoWay(o, i, rng=rng)
        elif k == 'fourway':
            from cgpm.dummy.fourway import FourWay
            self.m = FourWay(o, i, rng=rng)
        elif k == 'piecewise':
            from cgpm.dummy.piecewise import PieceWise
            self.m = PieceWise(o, i, sigma=spec['sigma'], flip=spec['flip'],
                rng=rng)
        elif k == 'troll':
            from cgpm.dummy.trollnormal import TrollNormal
            self.m = TrollNormal(o, i, rng=rng)
        elif k == 'linear':
            from cgpm.uncorrelated.linear import Linear
            self.m = Linear(o, i, noise=spec['sigma'] / 4, rng=rng)
        elif k == 'linreg':
            from cgpm.regressions.linreg import LinearRegression
            self.m = LinearRegression(o, i, distargs={'inputs': {
                'stattypes': ['numerical'] * len(i),
                'statargs': [{}] * len(i)}}, rng=rng)
            self.rows = []
            for j, us in enumerate(spec['rows']):
                x, y = 6 * us[0] - 3, [6 * u - 3 for u in us[1:]]
                y = [y[a % len(y)] for a in range(len(i))]
                self.rows.append((x, y))
                self.m.incorporate(10**4 + j, {o[0]: x}, dict(zip(i, y)))
        self.start()

    def start(self):
        if isinstance(self.m, Stub):
            self.m.calls = []

    def calls(self):
        return self.m.calls if isinstance(self.m, Stub) else None

    def lp(self, v, inputs):
        """log density of some outputs given all inputs."""
        k, o = self.kind, self.outputs
        y = [inputs[i] for i in self.inputs]
        if k == 'stub':
            return self.ref.logpdf(None, v, None, inputs)
        if k == 'twoway':
            p = [[.9, .1], [.3, .7]][int(y[0])]
            return math.log(p[int(v[o[0]])]) if v[o[0]] in (0, 1) else -INF
        if k == 'fourway':
            # Quadrants, and a table in the documentation of the class.
            from cgpm.dummy.fourway import FourWay
            q = FourWay.lookup_quadrant(*y)
            p = np.array(self.m.probabilities[q], dtype=float)
            x = v[o[0]]
            return math.log(p[int(x)] / p.sum()) if x in range(4) else -INF
        if k == 'troll':
            return normal(v[o[0]], y[0], abs(y[1]) + 1)
        if k == 'piecewise':
            s, f = self.spec['sigma'], self.spec['flip']
            lz = {0: math.log(f), 1: math.log(1 - f)}
            zs = [v[o[1]]] if o[1] in v else [0, 1]
            out = [lz[z] + (normal(v[o[0]], y[0] + 2 * z - 1, s)
                if o[0] in v else 0.) for z in zs]
            return float(np.logaddexp.reduce(out))
        if k == 'linear':
            c = 1 - self.spec['sigma'] / 4
            if len(v) == 1:
                return normal(list(v.values())[0], 0, 1)
            return float(stats.multivariate_normal.logpdf(
                [v[o[0]], v[o[1]]], [0, 0], [[1, c], [c, 1]]))
        if k == 'linreg':
            rows = self.rows + [(v[o[0]], y)]
            h = {'a': 1., 'b': 1.}

            def marg(rs):
                return ref.linreg_marginal(None, h, [r[0] for r in rs],
                    [ref.dummy(list(r[1]), [None] * len(r[1])) for r in rs])
            return marg(rows) - marg(self.rows)
        raise KeyError(k)

    def cell(self, q, u):
        if self.levels:
            return int(u * self.levels[q])
        if self.kind == 'twoway' or (self.kind == 'piecewise'
                and q == self.outputs[1]):
            return int(2 * u)
        if self.kind == 'fourway':
            return int(4 * u)
        return round(6 * u - 3, 3) or .5

    def size(self, q):
        """Number of values, None if not finitely many."""
        if self.levels:
            return self.levels[q]
        return {'twoway': 2, 'fourway': 4}.get(self.kind)


class Table(object):
    """The columns of the state, asked from a twin that composes nothing."""

    inputs = []

    def __init__(self, twin, types, rowid):
        self.twin, self.types, self.rowid = twin, types, rowid
        cols = list(twin.outputs)
        self.known = {}
        if rowid is not None and 0 <= rowid < twin.n_rows():
            self.known = {c: twin.X[c][rowid] for c in cols
                if not world.isnan(twin.X[c][rowid])}
        self.outputs = [c for c in cols if c not in self.known]
        self.cache = {}

    def lp(self, v, inputs):
        key = tuple(sorted(v.items()))
        if key not in self.cache:
            self.cache[key] = float(self.twin.logpdf(self.rowid, dict(v)))
        return self.cache[key]

    def cell(self, q, u):
        return world.cell(self.types[q][0], self.types[q][1], u)

    def size(self, q):
        t, d = self.types[q]
        return {'bernoulli': 2, 'categorical': (d or {}).get('k')}.get(t)


def bernstein(K, var, top, log10=-11):
    """Deviation of a mean of K bounded numbers that is never exceeded."""
    L = -log10 * math.log(10) + math.log(2)
    b = top * L / (3. * K)
    return b + math.sqrt(b * b + 2 * var * L / K)


class Net(object):
    """The reference: a directed graph of parts."""

    def __init__(self, parts):
        self.parts = parts
        self.of = {q: p for p in parts for q in p.outputs}

    def closure(self, vs):
        """Parts and variables needed to speak of vs."""
        seen, todo = set(), list(vs)
        while todo:
            q = todo.pop()
            if q in seen:
                continue
            seen.add(q)
            if q in self.of:
                todo.extend(self.of[q].inputs)
        return seen

    def needs(self, vs):
        """Variables that have to be imagined to speak of vs."""
        out = set()
        for q in self.closure(vs):
            if q in self.of and q not in vs:
                out.add(q)
        return out

    def exact(self, v, inputs):
        """log density of v, whose causes are all in v."""
        tot = 0.
        for p in self.parts:
            mine = {q: v[q] for q in p.outputs if q in v}
            if mine:
                tot += p.lp(mine, {i: v.get(i, inputs.get(i))
                    for i in p.inputs})
        return tot

    def space(self, free):
        """Assignments of the free variables."""
        ks = [self.of[q].size(q) for q in free]
        return [dict(zip(free, x)) for x in itertools.product(
            *[range(k) for k in ks])]

    def size(self, free):
        n = 1
        for q in free:
            k = self.of[q].size(q)
            if k is None:
                return None
            n *= k
        return n

    def law(self, v, inputs):
        """(mean, variance, maximum, minimum) of the weight of evidence v."""
        free = sorted(self.needs(v))
        m1 = m2 = top = 0.
        low = INF
        for s in self.space(free):
            full = dict(s) | v
            lj = self.exact(full, inputs)
            lw = 0.
            for p in self.parts:
                mine = {q: v[q] for q in p.outputs if q in v}
                if mine:
                    lw += p.lp(mine, {i: full.get(i, inputs.get(i))
                        for i in p.inputs})
            w = math.exp(lw) if lw > -INF else 0.
            j = math.exp(lj) if lj > -INF else 0.
            m1 += j
            m2 += j * w
            top, low = max(top, w), min(low, w)
        return m1, max(m2 - m1 * m1, 0.), top, low

    def posterior(self, targets, given, inputs):
        """Exact conditional distribution of some discrete targets."""
        free = sorted(self.needs(set(given) | set(targets)))
        out = {}
        for t in self.space(list(targets)):
            tot = 0.
            for s in self.space(free):
                lj = self.exact(dict(s) | given | t, inputs)
                tot += math.exp(lj) if lj > -INF else 0.
            out[tuple(t[q] for q in targets)] = tot
        z = sum(out.values())
        return {k: x / z for k, x in out.items()} if z else None


class P14(core.Prop):
    id = 'P14'
    runs = {'quick': 1500, 'thorough': 60000}
    wall = {'quick': 40., 'thorough': 780.}
    real = ['cgpm.network.importance', 'cgpm.network.helpers',
        'cgpm.crosscat.state (composition)', 'cgpm.crosscat.sampling',
        'cgpm.mixtures.view', 'cgpm.regressions.linreg', 'cgpm.dummy.*',
        'cgpm.uncorrelated.linear']
    stub = ['most components: tabulated conditional distributions that '
        'record every call and fail on demand']
    rule = ('one evaluation = one simulated history of compositions and '
        'queries; distinct = distinct event-log digests with at least two '
        'operations')
    assumptions = ['answers that need an average over imagined causes are '
        'judged by Bernstein bounds at 1e-11, draws by exact binomial tails '
        'at 1e-11; components\' tables are bounded away from certainty '
        'unless marked sharp']

    def prepare(self):
        import cgpm.crosscat.state
        import cgpm.network.importance
        import cgpm.regressions.linreg
        import cgpm.dummy.twoway
        import cgpm.dummy.fourway
        import cgpm.dummy.piecewise
        import cgpm.dummy.trollnormal
        import cgpm.uncorrelated.linear
        from cgpm.utils import config
        for t in world.PRIMITIVE:
            config.cctype_class(t)

    # -- generation ---------------------------------------------------------
    def gen(self, rng, tier):
        disc = rng.random() < .65
        state = rng.random() < .6
        init = None
        cols, size = [], {}
        if state:
            init = world.gen_init(rng, ['bernoulli', 'categorical'] if disc
                else ['normal', 'normal', 'bernoulli', 'categorical',
                    'poisson', 'exponential'],
                cols=(1, 3 if disc else 4), rows=(2, 6))
            for c in init['cols']:
                if c['cctype'] == 'categorical' and disc:
                    c['distargs'] = {'k': rng.choice([2, 3])}
                cols.append(c['id'])
                size[c['id']] = {'bernoulli': 2, 'categorical':
                    (c['distargs'] or {}).get('k')}.get(c['cctype'])
        n = rng.randint(1, 7 if tier == 'thorough' or rng.random() < .3
            else 5)
        # A directed acyclic graph, in causal order.
        parts, real = [], [c for c in cols if size[c] is None]
        binary = [c for c in cols if size[c] == 2]
        every = list(cols)
        sharp = rng.random() < .2
        for j in range(n):
            outs = [FIRST + 3 * j + i for i in range(rng.choice([1, 1, 2]))]
            kinds = ['stub'] * 3
            if not disc:
                kinds += ['linear'] + (['piecewise', 'linreg', 'troll',
                    'fourway'] if real else [])
            if binary:
                kinds.append('twoway')
            kind = rng.choice(kinds)
            spec = dict(kind=kind, id=j)
            if kind == 'stub':
                ins = rng.sample(every, min(len(every),
                    rng.choice([0, 1, 1, 2, 2])))
                if rng.random() < .15:
                    ins.append(OUTSIDE + rng.randrange(3))
                spec.update(levels=[rng.choice([2, 2, 3]) for _ in outs],
                    table=rng.randint(1, 10**6),
                    sharp=sharp and rng.random() < .6)
            elif kind == 'twoway':
                outs, ins = outs[:1], [rng.choice(binary)]
            elif kind in ('fourway', 'troll'):
                outs = outs[:1]
                ins = [rng.choice(real), rng.choice(real)]
                if ins[0] == ins[1]:
                    ins[1] = OUTSIDE + 5
            elif kind == 'piecewise':
                outs = [FIRST + 3 * j, FIRST + 3 * j + 1]
                ins = [rng.choice(real)]
            elif kind == 'linear':
                outs = [FIRST + 3 * j, FIRST + 3 * j + 1]
                ins = []
            elif kind == 'linreg':
                outs, ins = outs[:1], rng.sample(real, min(len(real),
                    rng.choice([1, 1, 2])))
                spec['rows'] = [[round(rng.random(), 3) for _ in range(3)]
                    for _ in range(rng.randint(0, 5))]
            spec.update(outs=outs, ins=ins, sigma=round(.3 + rng.random(), 2),
                flip=round(.2 + .6 * rng.random(), 2))
            for i, q in enumerate(outs):
                every.append(q)
                if kind == 'stub' and spec['levels'][i] == 2 \
                        or kind == 'twoway':
                    binary.append(q)
                if kind in ('linear', 'troll', 'linreg') \
                        or kind == 'piecewise' and i == 0:
                    real.append(q)
            rng.shuffle(spec['ins'])
            if rng.random() < .3:
                # Outputs and their levels in another order.
                if kind == 'stub':
                    z = list(zip(spec['outs'], spec['levels']))
                    rng.shuffle(z)
                    spec['outs'] = [a for a, _ in z]
                    spec['levels'] = [b for _, b in z]
            parts.append(spec)
        ops = []
        order = list(range(n))
        rng.shuffle(order)
        for j in order:
            ops.append(dict(op='compose', j=j))
        extra = ['logpdf'] * 5 + ['simulate'] * 3 + ['bad', 'bad', 'drop',
            'drop', 'compose', 'compose', 'fault', 'foreign', 'row', 'infer',
            'impossible'] + (['explain'] * 3 if disc and not state else [])
        for _ in range(rng.randint(3, 14)):
            ops.insert(rng.randint(n // 2, len(ops)), dict(op=rng.choice(extra)))
        for op in ops:
            op.setdefault('j', rng.randrange(100))
            op.update(s=rng.randint(1, 10**6), q=rng.randint(1, 10**9),
                u=[world.gen_u(rng, .2) for _ in range(5)])
        return dict(disc=disc, init=init, parts=parts, ops=ops,
            seed=rng.randint(1, 10**6),
            order=rng.randint(1, 10**6))

    def shrink(self, plan):
        used = set(op['j'] % len(plan['parts']) for op in plan['ops']
            if op['op'] == 'compose')
        for i, op in enumerate(plan['ops']):
            if op['op'] != 'compose' and any(u is None for u in op['u']):
                new = copy.deepcopy(plan)
                new['ops'][i]['u'] = [.5] * 5
                yield new
        if plan['init'] and len(plan['init']['cols']) > 1:
            for i in range(len(plan['init']['cols'])):
                c = plan['init']['cols'][i]['id']
                if any(c in p['ins'] for p in plan['parts']):
                    continue
                new = copy.deepcopy(plan)
                del new['init']['cols'][i]
                new['init'].pop('Zv', None)
                new['init'].pop('Zrv', None)
                yield new
        for i, p in enumerate(plan['parts']):
            for k in range(len(p['ins'])):
                if p['kind'] == 'stub':
                    new = copy.deepcopy(plan)
                    del new['parts'][i]['ins'][k]
                    yield new

    # -- simulation ---------------------------------------------------------
    def execute(self, plan, ctx):
        self.__class__.run(Sim(plan, ctx))

    @staticmethod
    def run(sim):
        for op in sim.plan['ops']:
            sim.reseed(op['s'])
            try:
                getattr(sim, 'op_' + op['op'])(op)
            except world.Skip:
                sim.ctx.log('skip', op['op'])
                continue
            sim.ctx.ops += 1
            sim.ctx.probe(op['op'])
            sim.ctx.log(op['op'], sorted(p.spec['id']
                for p in sim.live.values()))
            sim.ctx.state((op['op'], [(p.outputs, p.inputs)
                for p in sim.live.values()]))
            sim.twins(op)


class Sim(object):

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.rng = np.random.RandomState(plan['seed'])
        self.state = self.twin = None
        self.live = {}       # token -> Part
        self.n = 0
        self.domain = {q: p for p in (Part(s, self.rng)
            for s in plan['parts']) for q in p.outputs}
        if plan['init']:
            self.state = world.build(plan['init'])
            self.twin = world.build(plan['init'])
            self.types = {c['id']: (c['cctype'], c['distargs'])
                for c in plan['init']['cols']}
            self.rng = self.state.rng
        else:
            self.types = {}

    def reseed(self, s):
        self.rng.seed(s)
        if self.twin is not None:
            self.twin.rng.seed(s)

    def shot(self):
        if self.state is None:
            return None
        s = world.snapshot(self.state)
        s.pop('hooked', None)
        s['tokens'] = sorted(self.state.hooked_cgpms)
        s['composite'] = self.state.is_composite()
        return s

    def twins(self, op):
        """Composition never touches the model itself."""
        if self.state is None:
            return
        a, b = world.snapshot(self.state), world.snapshot(self.twin)
        for s in (a, b):
            s.pop('hooked', None)
            s.pop('composite', None)
            s.get('diagnostics', {}).pop('iterations', None)
        d = core.differ(a, b)
        self.ctx.check(d is None, 'model-changed', lambda: 'after %s the '
            'composed model differs from one composing nothing: %s' % (
                op['op'], d))
        self.ctx.check(self.state.is_composite() == bool(self.live),
            'composite-flag', lambda: '%d components composed, is_composite '
            'is %r' % (len(self.live), self.state.is_composite()))
        self.ctx.check(set(self.state.hooked_cgpms) == set(self.live)
            and all(self.state.hooked_cgpms[t] is p.m
                for t, p in self.live.items()), 'components', lambda:
            'tokens %r, composed %r' % (sorted(self.state.hooked_cgpms),
                sorted(self.live)))

    # -- composition --------------------------------------------------------
    def op_compose(self, op):
        spec = self.plan['parts'][op['j'] % len(self.plan['parts'])]
        if any(p.spec['id'] == spec['id'] for p in self.live.values()):
            raise world.Skip()
        part = Part(spec, self.rng)
        if self.state is None:
            self.live[self.n] = part
            self.n += 1
            return
        t = self.state.compose_cgpm(part.m)
        self.ctx.check(t not in self.live, 'token', lambda: 'compose_cgpm '
            'returned the token %r of a live component' % (t,))
        self.live[t] = part

    def op_drop(self, op):
        if not self.live:
            raise world.Skip()
        t = sorted(self.live)[op['j'] % len(self.live)]
        if self.state is not None:
            self.state.decompose_cgpm(t)
        del self.live[t]

    def op_bad(self, op):
        """Invalid compositions."""
        rng = random.Random(op['q'])
        net = Net(self.parts(None))
        taken = sorted(net.of)
        outside = sorted(set(i for p in self.live.values()
            for i in p.inputs if i not in net.of))
        kinds = ['empty', 'self', 'unknown']
        if taken:
            kinds += ['taken', 'taken']
        if outside:
            kinds += ['cycle'] * 3
        kind = rng.choice(kinds)
        outs, ins = [990], []
        if kind == 'empty':
            outs = []
        elif kind == 'self':
            ins = [990]
        elif kind == 'taken':
            outs = [rng.choice(taken)]
            if rng.random() < .4:
                outs.append(990)
            if rng.random() < .5:
                ins = [991]
        elif kind == 'cycle':
            x = rng.choice(outside)
            below = sorted(q for q in taken if x in net.closure([q]))
            outs = [x]
            ins = [rng.choice(below)] + ([991] if rng.random() < .5 else [])
            rng.shuffle(ins)
            if rng.random() < .4:
                outs.append(990)
        elif kind == 'unknown':
            if self.state is None:
                raise world.Skip()
        before = self.shot()
        bad = Stub(outs, ins, [2] * len(outs), rng=self.rng)

        def attempt():
            if kind == 'unknown':
                return self.state.decompose_cgpm(777)
            if self.state is not None:
                return self.state.compose_cgpm(bad)
            from cgpm.network.importance import ImportanceNetwork
            cg = [p.m for p in self.live.values()]
            cg.insert(op['j'] % (len(cg) + 1), bad)
            return ImportanceNetwork(cg, rng=self.rng)
        try:
            attempt()
        except (ValueError, KeyError, AssertionError) as e:
            self.ctx.fault('composition ' + kind)
            self.ctx.log('rejected', kind, type(e).__name__)
        else:
            self.ctx.check(False, 'accepted', lambda: 'a composition that is '
                'invalid (%s: outputs %r, inputs %r) was accepted over %r' % (
                    kind, outs, ins, [(p.outputs, p.inputs)
                        for p in self.live.values()]))
        d = core.differ(self.shot(), before)
        self.ctx.check(d is None, 'rejection-effect', lambda: 'rejecting a '
            'composition (%s) changed the model: %s' % (kind, d))
        # Answers go on as before.
        self.query(dict(op, q=op['q'] + 1), simulate=False)

    # -- the model's own life -------------------------------------------------
    def op_row(self, op):
        if self.state is None or self.state.n_rows() >= 9:
            raise world.Skip()
        obs = {}
        for j, c in enumerate(self.state.outputs):
            u = op['u'][j % len(op['u'])]
            if u is not None:
                obs[c] = world.cell(self.types[c][0], self.types[c][1], u)
        for m in (self.state, self.twin):
            m.incorporate(m.n_rows(), dict(obs))

    def op_infer(self, op):
        if self.state is None:
            raise world.Skip()
        for m in (self.state, self.twin):
            m.transition(N=1, kernels=['rows', 'columns', 'alpha'][
                op['j'] % 3:][:2], progress=False)

    def op_foreign(self, op):
        if self.state is None or not self.live:
            raise world.Skip()
        if any(not isinstance(p.m, Stub) for p in self.live.values()):
            raise world.Skip()
        rng = random.Random(op['q'])
        all_ = sorted(q for p in self.live.values() for q in p.outputs)
        cols = None if rng.random() < .4 else rng.sample(all_,
            rng.randint(1, len(all_)))
        N = rng.randint(1, 3)
        was = {t: p.m.moved for t, p in self.live.items()}
        kind = rng.choice(['ok', 'ok', 'own', 'fault'])
        hit = {t for t, p in self.live.items()
            if cols is None or set(cols) & set(p.outputs)}
        if kind == 'own':
            cols = (cols or all_) + [self.state.outputs[0]]
            rng.shuffle(cols)
        victim = None
        if kind == 'fault':
            victim = rng.choice(sorted(hit))
            self.live[victim].m.fail = 0
        try:
            self.state.transition_foreign(N=N, cols=cols, progress=False)
        except (ValueError, AssertionError):
            self.ctx.check(kind == 'own', 'refused', lambda: 'inference on '
                'the components of %r was refused' % (cols,))
            self.ctx.fault('foreign inference on own column')
            now = {t: p.m.moved for t, p in self.live.items()}
            self.ctx.check(now == was, 'rejection-effect', 'a rejected '
                'inference moved components')
            return
        except Fault:
            self.ctx.check(kind == 'fault', 'fault-misplaced', 'a fault '
                'nobody injected')
            self.ctx.fault('component fails in inference')
            return
        self.ctx.check(kind not in ('own', 'fault'), 'accepted', lambda:
            'inference over %r went well, %s' % (cols, kind))
        for t, p in self.live.items():
            want = was[t] + (N if t in hit else 0)
            self.ctx.check(p.m.moved == want, 'foreign', lambda: 'component '
                '%r moved %d times in transition_foreign(N=%d, cols=%r)' % (
                    p.outputs, p.m.moved - was[t], N, cols))

    # -- queries --------------------------------------------------------------
    def parts(self, rowid):
        ps = list(self.live.values())
        if self.state is not None:
            ps = [Table(self.twin, self.types, rowid)] + ps
        return ps

    def op_logpdf(self, op):
        self.query(op, simulate=False)

    def op_simulate(self, op):
        self.query(op, simulate=True)

    def op_explain(self, op):
        self.query(op, simulate=True, explain=True)

    def op_fault(self, op):
        self.query(op, simulate=op['j'] % 2, fault=True)

    def op_impossible(self, op):
        self.query(op, simulate=op['j'] % 2, missing=True)

    def query(self, op, simulate, fault=False, missing=False,
            explain=False):
        ctx = self.ctx
        rng = random.Random(op['q'])
        rowid = rng.choice([None, -1]) if self.state is None else \
            rng.choice([None, -1, -1] + list(range(self.state.n_rows())))
        net = Net(self.parts(rowid))
        known = {}
        if self.state is not None:
            known = net.parts[0].known
        every = sorted(net.of)
        if not every or self.state is not None and not self.live:
            # Nothing composed: the model answers by itself.
            raise world.Skip()
        # Variables: biased towards a chain of related ones.
        pick = rng.sample(every, rng.randint(1, min(len(every), 5)))
        if rng.random() < .6:
            q = rng.choice(every)
            close = sorted(net.closure([q]) & set(every))
            pick = [q] + [c for c in close if c != q
                and rng.random() < .8]
        if rng.random() < .5:
            # Causes of everything chosen are chosen too.
            pick += [c for c in sorted(net.closure(pick))
                if c in net.of and c not in pick]
        rng.shuffle(pick)
        nt = rng.randint(1, len(pick))
        if explain:
            # From an effect back to its causes.
            q = rng.choice(every)
            causes = sorted(net.closure([q]) & set(every) - {q})
            if not causes:
                raise world.Skip()
            nt = rng.randint(1, min(2, len(causes)))
            pick = rng.sample(causes, nt) + [q] + [c for c in every
                if c in net.closure([q]) and c not in causes and c != q]
            rest = [c for c in causes if c not in pick]
            if rest and rng.random() < .4:
                pick.append(rng.choice(rest))
        u = lambda: rng.randint(0, 999) / 1000.
        value = {q: net.of[q].cell(q, u()) for q in pick}
        T = pick[:nt]
        E = {q: value[q] for q in pick[nt:]}
        given = dict(known) | E
        both = {q: value[q] for q in T} | given
        outer = sorted(v for v in net.closure(both) if v not in net.of
            and v not in known)
        inputs = {v: self.domain[v].cell(v, u()) if v in self.domain
            else round(4 * u() - 2, 2) or 1. for v in outer}
        if rng.random() < .2 and outer:
            # An outside value may also come as evidence.
            v = rng.choice(outer)
            E[v] = inputs.pop(v)
        side = dict(inputs) | {v: E[v] for v in E if v not in net.of}
        given.update({v: E[v] for v in E if v not in net.of})
        ev = {v: x for v, x in given.items() if v in net.of}
        J = {v: x for v, x in both.items() if v in net.of}
        # Where the observed cells sit in no part, they are inputs.
        side.update({v: x for v, x in known.items()})
        if missing:
            direct = sorted(v for v in inputs)
            if not direct:
                raise world.Skip()
            gone = rng.choice(direct)
            del inputs[gone]
        closedJ, closedE = not net.needs(J), not net.needs(ev)
        accuracy = None
        if rng.random() < .5:
            accuracy = rng.choice([1, 2, 3])
        tup = rng.random() < .15
        asked = (tuple(T) if tup else list(T)) if simulate else \
            {q: value[q] for q in T}
        E_arg, in_arg = dict(E), dict(inputs)
        if not E_arg and rng.random() < .5:
            E_arg = None
        if not in_arg and rng.random() < .5:
            in_arg = None
        for p in self.live.values():
            p.start()
        if fault:
            stubs = [p for p in self.live.values()
                if isinstance(p.m, Stub) and set(p.outputs)
                & net.closure(J)]
            if not stubs:
                raise world.Skip()
            victim = rng.choice(stubs)
            victim.m.fail = rng.randrange(2)
        N = None
        if simulate and rng.random() < .6:
            N = rng.choice([1, 2, 120])
        if explain:
            N = 120
        small = self.enumerable(net, set(J) | set(ev))
        est = not simulate and not closedJ and small
        if est and not fault:
            accuracy = rng.choice([25, 60])
        far = simulate and N == 120 and small and self.sampled(net, ev)
        if far:
            if self.state is not None or not self.plan['disc']:
                N, far = 2, False
            else:
                accuracy = 30
        args = copy.deepcopy((asked, E_arg, in_arg))
        before = self.shot()
        ask = self.ask(rowid, asked, E_arg, in_arg, N, accuracy, simulate,
            op)
        try:
            got = ask()
        except Fault:
            ctx.check(fault, 'fault-misplaced', 'a fault nobody injected')
            ctx.fault('component fails in a query')
            self.unchanged(before, 'a component failing in a query')
            return
        except (ValueError, AssertionError) as e:
            if missing:
                ctx.fault('query without a needed input')
                self.unchanged(before, 'a query without a needed input')
                return
            self.refused(net, ev, side, e, T, E, inputs, rowid)
            self.unchanged(before, 'a refused query')
            return
        finally:
            for p in self.live.values():
                if isinstance(p.m, Stub):
                    p.m.fail = None
        if missing:
            ctx.check(False, 'accepted', lambda: 'asked %r given %r; inputs '
                '%r: answered %.200r though %r is an input nobody gave' % (
                    asked, E_arg, in_arg, got, gone))
        ctx.check(core.differ(args, (asked, E_arg, in_arg)) is None,
            'argument-mutated', lambda: 'a query changed its arguments: %r, '
            'was %r' % ((asked, E_arg, in_arg), args))
        self.unchanged(before, 'a query')
        self.called(net, rowid, T, given, side, got, N, accuracy, simulate)
        if fault and not simulate and not closedJ and accuracy is None:
            return
        what = 'p(%s | %s; %s) of row %r' % (asked, E_arg, in_arg, rowid)
        graph = lambda: [(p.kind, p.outputs, p.inputs)
            for p in self.live.values()]
        if not simulate:
            self.judge_density(net, J, ev, side, float(got), accuracy or 1,
                closedJ, closedE, small, lambda: '%s over %r' % (
                    what, graph()))
        else:
            self.judge_draws(net, T, ev, side, got, N, accuracy or 1, small,
                far, lambda: '%s over %r' % (what, graph()))

    def ask(self, rowid, asked, E, inputs, N, accuracy, simulate, op):
        if self.state is not None:
            if simulate:
                return lambda: self.state.simulate(rowid, asked, E, inputs,
                    N, accuracy=accuracy)
            return lambda: self.state.logpdf(rowid, asked, E, inputs,
                accuracy=accuracy)
        from cgpm.network.importance import ImportanceNetwork
        cg = [p.m for p in self.live.values()]
        random.Random(self.plan['order'] + op['q']).shuffle(cg)
        net = ImportanceNetwork(cg, accuracy=accuracy, rng=self.rng)
        if simulate:
            return lambda: net.simulate(rowid, asked, E, inputs, N)
        return lambda: net.logpdf(rowid, asked, E, inputs)

    def unchanged(self, before, what):
        d = core.differ(self.shot(), before)
        self.ctx.check(d is None, 'query-effect', lambda: '%s changed the '
            'model: %s' % (what, d))

    def enumerable(self, net, vs):
        n = net.size(sorted(v for v in net.closure(vs) if v in net.of))
        return n is not None and n <= 600

    def sampled(self, net, ev):
        """Is evidence downstream of something imagined?"""
        return bool(net.needs(ev))

    def refused(self, net, ev, side, e, T, E, inputs, rowid):
        """A refusal is right only for evidence that may look impossible."""
        if not self.enumerable(net, ev) and net.needs(ev):
            self.ctx.probe('refused-unjudged')
            return
        if not net.needs(ev):
            lp = net.exact(ev, side)
            ok = lp == -INF
        else:
            ok = net.law(ev, side)[3] == 0.
        self.ctx.check(ok, 'refused', lambda: 'a query of %r given %r; %r of '
            'row %r was refused: %s: %s' % (T, E, inputs, rowid,
                type(e).__name__, e))
        self.ctx.fault('impossible evidence')

    def called(self, net, rowid, T, given, side, got, N, accuracy, simulate):
        """How the recording components were called."""
        chk = self.ctx.check
        for p in self.live.values():
            for what, r, targets, constraints, inputs, out in (
                    p.calls() or ()):
                name = 'component %r <- %r' % (p.outputs, p.inputs)
                chk(r == rowid, 'call-row', lambda: '%s was asked about row '
                    '%r in a query of row %r' % (name, r, rowid))
                chk(set(inputs) == set(p.inputs), 'call-inputs', lambda:
                    '%s was called with inputs %r' % (name, inputs))
                for i, x in inputs.items():
                    want = given.get(i, side.get(i, x))
                    chk(x == want, 'call-inputs', lambda: '%s was called '
                        'with %r = %r, the query fixed %r' % (
                            name, i, x, want))
                chk(set(targets) | set(constraints) <= set(p.outputs)
                    and not set(targets) & set(constraints), 'call-outputs',
                    lambda: '%s was asked for %r given %r' % (
                        name, targets, constraints))
                for q, x in constraints.items():
                    if q in given:
                        chk(x == given[q], 'call-evidence', lambda: '%s got '
                            'evidence %r = %r, the query fixed %r' % (
                                name, q, x, given[q]))
        if not simulate:
            return
        many = [got] if N is None else got
        chk(isinstance(many, list) and len(many) == (N or 1), 'draws', lambda:
            '%r draws were asked: %.200r' % (N, got))
        for s in many:
            chk(isinstance(s, dict) and set(s) == set(T), 'draws', lambda:
                'a draw of %r is %.200r' % (T, s))
        if len(many) == 1 and (accuracy or 1) == 1:
            s = many[0]
            for p in self.live.values():
                calls = [c for c in p.calls() or () if c[0] == 'simulate']
                if not calls:
                    continue
                for c in calls:
                    for q, x in c[5].items():
                        chk(q not in s or s[q] == x, 'draw-source', lambda:
                            '%r was drawn as %r and returned as %r' % (
                                q, x, s.get(q)))
                    for i, x in c[4].items():
                        chk(i not in s or s[i] == x, 'draw-parent', lambda:
                            'component %r was run with %r = %r, the draw '
                            'says %r' % (p.outputs, i, x, s.get(i)))

    def judge_density(self, net, J, ev, side, got, K, closedJ, closedE,
            small, what):
        chk, ctx = self.ctx.check, self.ctx
        chk(not math.isnan(got), 'density-nan', lambda: '%s is nan' % what())
        if closedJ and closedE:
            ctx.probe('density-exact')
            lj = net.exact(J, side)
            le = net.exact(ev, side) if ev else 0.
            if le == -INF:
                chk(False, 'impossible-evidence', lambda: '%s answered %r '
                    'for impossible evidence' % (what(), got))
            chk(core.close(got, lj - le, 1e-5, 1e-5), 'density', lambda:
                '%s is %r, product of the parts %r' % (what(), got, lj - le))
            return
        if not small:
            ctx.probe('density-unjudged')
            return
        mj, vj, tj, _ = net.law(J, side)
        bj = bernstein(K, vj, tj) if not closedJ else 1e-9 * mj
        if ev:
            me, ve, te, lowe = net.law(ev, side)
            be = bernstein(K, ve, te) if not closedE else 1e-9 * me
            if me == 0:
                chk(False, 'impossible-evidence', lambda: '%s answered %r '
                    'for impossible evidence' % (what(), got))
        else:
            me, be = 1., 1e-9
        hi = math.log((mj + bj) / (me - be)) if me > be and mj + bj > 0 \
            else (INF if mj + bj > 0 else -INF)
        lo = math.log((mj - bj) / (me + be)) if mj > bj else -INF
        ctx.probe('density-estimate')
        chk(lo - 1e-4 <= got <= hi + 1e-4, 'density-estimate', lambda: '%s '
            'is %r from %d samples, it is %r and no more than [%r, %r] is '
            'luck' % (what(), got, K, math.log(mj / me) if mj else -INF,
                lo, hi))

    def judge_draws(self, net, T, ev, side, got, N, K, small, far, what):
        ctx, chk = self.ctx, self.ctx.check
        many = [got] if N is None else got
        # Values a part could never give, given what it was told.
        for s in many:
            for q, x in s.items():
                k = net.of[q].size(q)
                if k is not None:
                    chk(x == int(x) and 0 <= x < k, 'draw-support', lambda:
                        '%s drew %r = %r' % (what(), q, x))
        if len(many) < 50 or not small:
            return
        if any(net.of[t].size(t) is None for t in T):
            return
        if self.sampled(net, ev) and not far:
            return
        # Evidence is never downstream of a target, either.
        if not far and self.needs_targets(net, T, ev):
            return
        want = net.posterior(T, ev, side)
        if want is None:
            return
        slack = 0.
        if far or self.needs_targets(net, T, ev):
            if not far:
                return
            m, v, top, low = net.law(ev, side)
            if not m or v / (m * m) > 1.5:
                return
            # Bias of choosing among K weighted samples.
            slack = 1.5 * (v / (m * m)) / K + .01
            ctx.probe('draws-downstream')
        else:
            ctx.probe('draws-exact')
        n = {}
        for s in many:
            key = tuple(int(s[t]) for t in T)
            n[key] = n.get(key, 0) + 1
        for key, p in want.items():
            c = n.get(key, 0)
            hi, lo = min(1., p * (1 + 2 * slack) + slack), \
                max(0., p * (1 - 2 * slack) - slack)
            tail = min(1., stats.binom.sf(c - 1, len(many), hi)) \
                if c > p * len(many) else stats.binom.cdf(c, len(many), lo)
            chk(tail > 1e-11, 'draws-law', lambda: '%s: %d of %d draws are '
                '%r, its probability is %.4f' % (what(), c, len(many), key,
                    p))
        # One variable at a time, and pairs of cells together.
        for a in range(len(T)):
            m, w = {}, {}
            for key, p in want.items():
                w[key[a]] = w.get(key[a], 0) + p
            for key, c in n.items():
                m[key[a]] = m.get(key[a], 0) + c
            for x, p in w.items():
                c = m.get(x, 0)
                hi, lo = min(1., p * (1 + 2 * slack) + slack), \
                    max(0., p * (1 - 2 * slack) - slack)
                tail = min(1., stats.binom.sf(c - 1, len(many), hi)) \
                    if c > p * len(many) \
                    else stats.binom.cdf(c, len(many), lo)
                chk(tail > 1e-11, 'draws-law', lambda: '%s: %d of %d draws '
                    'have %r = %r, its probability is %.4f' % (what(), c,
                        len(many), T[a], x, p))

    def needs_targets(self, net, T, ev):
        return bool(net.closure(ev) & set(T))


PROP = P14()
