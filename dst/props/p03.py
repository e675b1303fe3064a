"""P03: the same seed and the same history give the same result.

One plan is executed several times: in a calm environment; again while the
process-wide generators are reseeded, the clock jumps and unrelated models
live in between; and again in another interpreter with another hash seed.
Every answer, every state and every generator must agree to the last bit.
"""

import copy
import hashlib
import random
import warnings

import numpy as np

from .. import core, partner, simclock, simproc, world
from . import p02, p12, p15

HASHSEEDS = [11, 12]

SYNTHETIC = dict(uniformx=('cgpm.uncorrelated.uniformx', 'UniformX', [0]),
    diamond=('cgpm.uncorrelated.diamond', 'Diamond', [0, 1]),
    parabola=('cgpm.uncorrelated.parabola', 'Parabola', [0, 1]),
    sin=('cgpm.uncorrelated.sin', 'Sin', [0, 1]),
    dots=('cgpm.uncorrelated.dots', 'Dots', [0, 1]),
    linear=('cgpm.uncorrelated.linear', 'Linear', [0, 1]),
    ring=('cgpm.uncorrelated.ring', 'Ring', [0, 1]),
    xcross=('cgpm.uncorrelated.xcross', 'XCross', [0, 1]))
SIDED = dict(fourway=('cgpm.dummy.fourway', 'FourWay'),
    twoway=('cgpm.dummy.twoway', 'TwoWay'),
    piecewise=('cgpm.dummy.piecewise', 'PieceWise'),
    troll=('cgpm.dummy.trollnormal', 'TrollNormal'))


class Rng(np.random.RandomState):
    """A generator that knows its copies, and does not let them pass."""

    fork = False
    forked = None       # list shared by a generator and its copies

    def __deepcopy__(self, memo):
        r = Rng()
        r.set_state(self.get_state())
        r.fork = True
        if self.forked is None:
            self.forked = []
        r.forked = self.forked
        memo[id(self)] = r
        return r

    __copy__ = lambda self: self.__deepcopy__({})

    def _tick(self, name):
        if self.fork:
            self.forked.append(name)


def _wrap(name):
    base = getattr(np.random.RandomState, name)

    def method(self, *a, **k):
        self._tick(name)
        return base(self, *a, **k)
    method.__name__ = name
    return method


for _n in ['rand', 'randn', 'random_sample', 'uniform', 'normal', 'gamma',
        'choice', 'permutation', 'shuffle', 'multinomial', 'randint', 'beta',
        'exponential', 'poisson', 'geometric', 'binomial', 'vonmises',
        'lognormal', 'multivariate_normal', 'dirichlet', 'chisquare',
        'standard_normal', 'standard_gamma']:
    setattr(Rng, _n, _wrap(_n))


class Steady(Rng):
    """Cannot be reseeded: all draws come from one stream."""

    def seed(self, s=None):
        pass


def exact(x):
    """Text that tells any two answers apart, whatever the order of keys."""
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, dict):
        return '{%s}' % ', '.join(sorted('%s: %s' % (exact(k), exact(v))
            for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return '<%s>' % ', '.join(sorted(map(exact, x)))
    if isinstance(x, (list, tuple)):
        return '[%s]' % ', '.join(map(exact, x))
    if isinstance(x, (int, float, str, bool)) or x is None:
        return repr(x)
    return '<%s>' % (type(x).__name__,)


def digest_of(r):
    st = r.get_state()
    return hashlib.sha1(st[1].tobytes() + repr(st[2:]).encode()) \
        .hexdigest()[:12]


class Life(object):
    """What a subject reports while it lives."""

    def __init__(self, env):
        self.env = env
        self.events = []
        self.problems = []

    def event(self, label, value):
        s = exact(value)
        self.events.append([label, hashlib.sha1(s.encode()).hexdigest()[:16],
            s[:4000]])


class Environment(object):
    """Level 0 is calm; the others poison everything a model must not use."""

    def __init__(self, plan, level):
        self.level = level
        self.rng = random.Random(plan['env'] * 7 + level)
        self.clock = simclock.Clock(1e9)
        if level:
            self.clock = simclock.Clock(self.rng.choice([0., 1e9, 4e9]),
                self.rng.choice([0., 1e-3, 40., -5.]))
        self.friend = None
        if level and plan.get('friend'):
            self.friend = world.World(plan['friend']['init'], core.Ctx())
            self.ops = list(plan['friend']['ops'])
        self.before()

    def before(self):
        """Between two operations."""
        if not self.level:
            np.random.seed(1)
            random.seed(1)
        else:
            if self.friend is not None and self.ops:
                try:
                    self.friend.apply(self.ops.pop(0))
                except Exception:
                    # Unrelated; P07 and others judge it.
                    self.friend = None
            np.random.seed(self.rng.randint(0, 2**31))
            random.seed(self.rng.random())
            if self.rng.random() < .5:
                self.clock.advance(self.rng.choice([-1e6, 3600., 1e8, -2.]))
        self.mark = (digest_of(np.random.mtrand._rand),
            hash(random.getstate()))

    def after(self, life, label):
        now = (digest_of(np.random.mtrand._rand), hash(random.getstate()))
        if now != self.mark:
            life.problems.append(('process-wide-generator', '%s drew from '
                'a process-wide random generator' % (label,)))


class P03(core.Prop):
    id = 'P03'
    runs = {'quick': 2500, 'thorough': 120000}
    wall = {'quick': 45., 'thorough': 780.}
    run_timeout = 90
    rule = ('one evaluation = one plan executed in a calm and in a hostile '
        'environment (and, for a part, in a second interpreter); distinct = '
        'distinct event-log digests with at least two operations')
    real = ['cgpm.crosscat.state', 'cgpm.crosscat.engine and everything below '
        'them', 'cgpm.regressions.*', 'cgpm.knn', 'cgpm.kde', 'cgpm.factor',
        'cgpm.dummy.*', 'cgpm.uncorrelated.*', 'cgpm.utils.*']
    stub = ['clock, process-wide generators', 'multiprocessing, pipes, '
        'select: simulated processes']
    assumptions = ['the interpreter stands for itself: the second one differs '
        'in its string hash seed and in all addresses']

    def prepare(self):
        from .. import py2load
        py2load.install()
        p15.PROP.prepare()
        p02.PROP.prepare()
        import cgpm.network.importance
        self.partners = {h: partner.Partner(h) for h in HASHSEEDS}

    # -- plans ---------------------------------------------------------------
    def gen(self, rng, tier):
        subject = rng.choices(['state', 'engine', 'component', 'synthetic',
            'tools'], [9, 4, 4, 1, 1])[0]
        plan = dict(subject=subject, env=rng.randint(1, 10**6),
            seed=rng.randint(1, 10**6),
            partner=rng.choice(HASHSEEDS) if rng.random() < .3 else None)
        if rng.random() < .4:
            init = world.gen_init(rng, world.COLLAPSED, cols=(1, 3),
                rows=(2, 5))
            plan['friend'] = dict(init=init, ops=world.gen_history(rng, 8,
                dict(inc_row=2, kernel=4, cctype=2, logpdf=1, simulate=2),
                world.COLLAPSED))
        if subject == 'state':
            plan['init'] = world.gen_init(rng, world.COLLAPSED * 2
                + world.UNCOLLAPSED * 2, cols=(1, 4), rows=(2, 6))
            types = world.PRIMITIVE
            if rng.random() < .15:
                plan['ops'] = self.constrained(rng, plan['init'])
            else:
                plan['ops'] = []
                W = dict(world.DEFAULT_WEIGHTS, simulate=4, logpdf=2, mi=1,
                    dependence=.5, similarity=.5, score=.5, compose=.7,
                    bulk=1)
                keep = [k for k in W if rng.random() < .75] or list(W)
                for _ in range(rng.randint(2, 9)):
                    k = rng.choices(keep, [W[q] for q in keep])[0]
                    if k == 'compose':
                        op = dict(op=k, s=1, t=[rng.randrange(6)
                            for _ in range(rng.randint(1, 2))])
                    elif k == 'bulk':
                        op = world.gen_op(rng, 'simulate')
                        op.update(op='bulk', n=rng.randint(1, 3),
                            sim=rng.random() < .7)
                    else:
                        op = world.gen_op(rng, k, types, .25)
                    plan['ops'].append(op)
        elif subject == 'engine':
            types = rng.choice([world.COLLAPSED, world.PRIMITIVE,
                ['normal', 'categorical']])
            plan['init'] = world.gen_init(rng, types, cols=(1, 3),
                rows=(2, 5))
            plan['init'].pop('Zrv', None)
            plan['n_states'] = rng.choice([1, 2, 2, 3])
            plan['ncpu'] = rng.choice([1, 2, 3])
            plan['ops'] = []
            from .p01 import gen_sched
            for _ in range(rng.randint(2, 7)):
                plan['ops'].append(dict(op=rng.choice(['infer', 'infer',
                    'row', 'simulate', 'simulate', 'bulk', 'logpdf', 'add',
                    'mi', 'resample', 'restore', 'column', 'type',
                    'dependence']), s=rng.randint(1, 10**6),
                    q=rng.randint(1, 10**9),
                    u=[world.gen_u(rng, .2) for _ in range(5)],
                    multi=rng.random() < .5, sched=gen_sched(rng, 15)))
        elif subject == 'component':
            p = p15.PROP.gen(rng, tier)
            plan['spec'] = p['spec']
            plan['sparse'] = p['sparse']
            plan['ops'] = [dict(op, op=rng.choice(['obs', 'obs', 'obs',
                'uninc', 'fix', 'ask', 'save'])) for op in p['ops']]
        elif subject == 'synthetic':
            plan['which'] = rng.choice(list(SYNTHETIC) + list(SIDED))
            plan['noise'] = rng.choice([.1, .3, .6])
            plan['ops'] = [dict(op='draw', N=rng.choice([None, 1, 2, 5]),
                q=rng.randrange(1000)) for _ in range(rng.randint(2, 6))]
        else:
            plan['ops'] = [dict(op=rng.choice(['table', 'crp', 'crpc',
                'crpd', 'pflip', 'mh', 'slice', 'reject', 'prng',
                'partition']), q=rng.randint(1, 10**6))
                for _ in range(rng.randint(2, 6))]
        return plan

    def constrained(self, rng, init):
        """A model with dependence constraints."""
        ids = [c['id'] for c in init['cols']]
        if len(ids) >= 2:
            for j, c in enumerate(init['cols']):
                c['id'] = ids[j] = j
            a, b = rng.sample(ids, 2)
            init.pop('Zv', None)
            init.pop('Zrv', None)
            init.pop('alpha', None)
            if rng.random() < .5:
                init['Cd'] = [[a, b]]
            else:
                init['Ci'] = [[a, b]]
        return [world.gen_op(rng, rng.choice(['kernel', 'kernel', 'inc_row',
            'simulate'])) for _ in range(rng.randint(2, 6))]

    def shrink(self, plan):
        if plan.get('friend'):
            yield {k: v for k, v in plan.items() if k != 'friend'}
        if plan.get('partner'):
            yield dict(plan, partner=None)
        if plan['subject'] in ('state', 'engine'):
            for p in world.shrink_plan(plan):
                yield p
        for i, op in enumerate(plan['ops']):
            if op.get('multi'):
                ops = list(plan['ops'])
                ops[i] = dict(op, multi=False, sched=[])
                yield dict(plan, ops=ops)
        if plan.get('n_states', 1) > 1:
            yield dict(plan, n_states=plan['n_states'] - 1)

    # -- execution ----------------------------------------------------------
    def record(self, plan, level):
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            env = Environment(plan, level)
            life = Life(env)
            with simclock.using(env.clock):
                try:
                    getattr(self, 'live_' + plan['subject'])(plan, life)
                except world.Skip:
                    life.event('over', None)
        self.life = life
        return life.events

    def execute(self, plan, ctx):
        self.ctx = ctx
        calm = self.record(plan, 0)
        problems = self.life.problems
        ctx.probe(plan['subject'])
        for e in calm:
            ctx.ops += 1
            ctx.log(e[0], e[1])
            ctx.state((e[0], e[1]))
            ctx.probe('%s-%s' % (plan['subject'], e[0].split()[0]))
        for cls, msg in problems[:1]:
            ctx.check(False, cls, msg)
        ctx.fault('process-wide generators reseeded')
        ctx.fault('clock jumps')
        if plan.get('friend'):
            ctx.fault('another model in between')
        self.compare(calm, self.record(plan, 1), 'with other process-wide '
            'generators, another clock%s' % (' and another model in between'
                if plan.get('friend') else ''))
        for cls, msg in self.life.problems[:1]:
            ctx.check(False, cls, msg)
        if plan.get('partner'):
            ctx.fault('another interpreter')
            other = self.partners[plan['partner']].record(plan)
            self.compare(calm, other, 'in an interpreter with hash seed %d'
                % plan['partner'])

    def compare(self, a, b, how):
        for i, (x, y) in enumerate(zip(a, b)):
            self.ctx.check(x[1] == y[1], 'differs', lambda: 'step %d (%s) is '
                'another %s: %s / %s' % ((i, x[0], how) + apart(x[2], y[2])))
        self.ctx.check(len(a) == len(b), 'differs',
            '%d and %d steps %s' % (len(a), len(b), how))

    def step(self, life, label, f, rng=None, must=False, state=None):
        """One operation of a subject: its answer, error, state, generator."""
        life.env.before()
        was = digest_of(rng) if rng is not None else None
        try:
            r, ok = f(), True
        except world.Skip:
            return None
        except Exception as e:
            r, ok = ('error', type(e).__name__, str(e)), False
        life.env.after(life, label)
        life.event(label, r)
        if rng is not None:
            now = digest_of(rng)
            life.event(label + ' generator', now)
            if getattr(rng, 'forked', None):
                life.problems.append(('forked-generator', '%s drew from a '
                    'copy of the generator of the model (%s)' % (label,
                        sorted(set(rng.forked)))))
                rng.forked[:] = []
            if must and ok and now == was:
                life.problems.append(('generator-ignored', '%s did not draw '
                    'from the generator of the model' % (label,)))
        if state is not None:
            life.event(label + ' state', state())
        if not ok:
            if hasattr(self, 'ctx'):
                self.ctx.probe('ended by %s in %s' % (r[1], label))
                self.ctx.log(r)
            raise world.Skip()
        return r

    # A State.
    def live_state(self, plan, life):
        w = None

        def make():
            return RWorld(plan['init'], life)
        w = self.step(life, 'build', make)
        if w is None:
            raise world.Skip()
        life.event('build state', world.snapshot(w.state))
        for op in plan['ops']:
            label = op['op'] + (' ' + op['kernel'] if op['op'] == 'kernel'
                else '')
            if w.state.hooked_cgpms and op['op'] in ('restore', 'uninc_dim'):
                continue
            must = op['op'] == 'simulate' and any(
                w.types[c][0] not in world.DISCRETE + ['random_forest']
                for c in w.cols()) and op.get('row') is None and all(
                w.types[c][0] not in world.DISCRETE + ['random_forest']
                for c in w.resolve_query(op)[1])
            self.step(life, label, lambda: w.apply(op), w.state.rng, must,
                lambda: world.snapshot(w.state))

    # An Engine.
    def live_engine(self, plan, life):
        from cgpm.crosscat.engine import Engine
        init = plan['init']
        cols = [c['id'] for c in init['cols']]
        types = {c['id']: (c['cctype'], c['distargs']) for c in init['cols']}
        X = np.asarray([world.data_of(c) for c in init['cols']],
            dtype=float).T
        rng = np.random.RandomState(init['seed'])
        level = life.env.level

        def run(op, f):
            # How many processors there are, and which worker is done
            # first, is no part of the history.
            if not op['multi']:
                return f(0)
            if level and hasattr(self, 'ctx'):
                self.ctx.fault('another schedule')
            with simproc.Simulation(ncpu=plan['ncpu'] if level else 1,
                    sched=op['sched'] if level else [], faults=[],
                    ctx=core.Ctx()):
                return f(1)
        box = {}

        def build():
            box['e'] = Engine(X, num_states=plan['n_states'], outputs=cols,
                cctypes=[c['cctype'] for c in init['cols']],
                distargs=[copy.deepcopy(c['distargs'])
                    for c in init['cols']], rng=rng, multiprocess=0)
        self.step(life, 'build', build, rng, True)
        for op in plan['ops']:
            r = random.Random(op['q'])
            e = box['e']
            st = e.states[0]
            n = st.n_rows()
            now = {c: (st.dim_for(c).name(), types[c][1]) for c in cols}
            some = r.choice([None, None, [i for i in range(e.num_states())
                if r.random() < .6]])
            c = r.choice(cols)
            rest = [d for d in cols if d != c]
            ev = {d: world.cell(types[d][0], types[d][1],
                r.randint(0, 999) / 1000.) for d in rest
                if r.random() < .4}

            def f(m):
                o = op['op']
                if o == 'infer':
                    ks = r.sample(['alpha', 'view_alphas', 'column_params',
                        'column_hypers', 'rows', 'columns'], r.randint(1, 6))
                    return e.transition(N=r.randint(1, 2), kernels=ks,
                        statenos=some, progress=False, multiprocess=m)
                if o == 'row':
                    if n >= 8:
                        raise world.Skip()
                    obs = {d: world.cell(types[d][0], types[d][1], u)
                        for d, u in zip(cols, op['u']) if u is not None}
                    return e.incorporate(n, obs, multiprocess=m)
                if o == 'simulate':
                    return e.simulate(-1, [c], ev, N=r.choice([None, 1, 3]),
                        statenos=some, multiprocess=m)
                if o == 'bulk':
                    return e.simulate_bulk([-1, -1], [[c], [cols[0]]],
                        Ns=[2, 1], multiprocess=m)
                if o == 'logpdf':
                    return e.logpdf(-1, {c: world.cell(types[c][0],
                        types[c][1], .4)}, ev, statenos=some, multiprocess=m)
                if o == 'add':
                    if e.num_states() > 4:
                        raise world.Skip()
                    return e.add_state(count=r.randint(1, 2), multiprocess=m)
                if o == 'mi':
                    if not rest:
                        raise world.Skip()
                    return e.mutual_information([c], [rest[0]], N=3, T=2,
                        statenos=some, progress=False, multiprocess=m)
                if o == 'resample':
                    if some == []:
                        raise world.Skip()
                    k = e.num_states() if some is None else len(some)
                    return e._likelihood_weighted_resample(
                        [[{'s': j, 'i': i} for i in range(5)]
                            for j in range(k)], -1, ev, statenos=some,
                        multiprocess=m)
                if o == 'restore':
                    meta = e.to_metadata()
                    box['e'] = Engine.from_metadata(meta, rng=rng,
                        multiprocess=m)
                    return None
                if o == 'column':
                    if 77 in e.states[0].outputs:
                        raise world.Skip()
                    return e.incorporate_dim([float(i) - .4 for i
                        in range(n)], [77], cctype='normal', multiprocess=m)
                if o == 'type':
                    d = e.states[0].dim_for(c)
                    if d.name() != 'normal':
                        raise world.Skip()
                    return e.update_cctype(c, 'normal', multiprocess=m)
                if o == 'dependence':
                    return e.dependence_probability_pairwise(multiprocess=m)
            self.step(life, op['op'], lambda: run(op, f), None)
            life.event(op['op'] + ' generator', digest_of(rng))
            life.event(op['op'] + ' states', [world.snapshot(s)
                for s in box['e'].states])

    # A component.
    def live_component(self, plan, life):
        spec = plan['spec']
        cls = p15.Primitive if spec['kind'] == 'prim' \
            else p15.KINDS[spec['kind']]
        def make():
            p15.Kind.make_rng = Steady
            try:
                return cls(spec, plan['seed'])
            finally:
                p15.Kind.make_rng = np.random.RandomState
        kind = self.step(life, 'build', make)
        rows = kind.start() if hasattr(kind, 'start') else {}
        rng, fixed = kind.rng, 0
        for op in plan['ops']:
            o = op['op']
            if o == 'obs':
                if hasattr(kind, 'absent'):
                    free = kind.absent(rows)
                    if not free:
                        continue
                    r = free[op['i'] % len(free)]
                    K = sorted(kind.m.Nk()) or [0]
                    obs = ({**{c: x[r] for c, x in kind.X.items()},
                        kind.z: K[op['s'] % len(K)]},)
                else:
                    r = op['i'] * 7 if plan['sparse'] else len(rows)
                    if len(rows) >= 10 or r in rows:
                        continue
                    obs = kind.obs(op['u'])
                self.step(life, 'observe', lambda: kind.m.incorporate(r,
                    *copy.deepcopy(obs)), rng)
                rows[r] = obs
            elif o == 'uninc':
                if not rows:
                    continue
                r = list(rows)[op['i'] % len(rows)]
                self.step(life, 'forget', lambda: kind.m.unincorporate(r),
                    rng)
                del rows[r]
            elif o == 'fix':
                fixed += 1
                if spec['kind'] == 'forest' and fixed > 2:
                    continue
                self.step(life, 'infer', lambda: kind.fixes(kind.m, rows,
                    ['params', 'hypers'][op['i'] % 2]), rng)
            elif o == 'ask':
                self.step(life, 'ask', lambda: kind.answers(kind.m, rows,
                    op['s']), rng)
            elif kind.saves:
                m = self.step(life, 'save', kind.m.to_metadata)
                m2 = self.step(life, 'load', lambda: type(kind.m)
                    .from_metadata(m, rng=rng), rng)
                kind.m = m2 or kind.m

    # Synthetic generators.
    def live_synthetic(self, plan, life):
        which = plan['which']
        rng = Rng(plan['seed'])

        def make():
            import importlib
            if which in SIDED:
                mod, name = SIDED[which]
                k = getattr(importlib.import_module(mod), name)
                outs, ins = dict(fourway=([3], [4, 5]), twoway=([3], [4]),
                    piecewise=([3, 5], [4]), troll=([3], [4, 5]))[which]
                return k(outs, ins, rng=rng), outs, ins
            mod, name, outs = SYNTHETIC[which]
            k = getattr(importlib.import_module(mod), name)
            kw = {} if which == 'uniformx' else {'noise': plan['noise']}
            return k(outputs=list(outs), rng=rng, **kw), outs, []
        made = self.step(life, 'build ' + which, make, rng)
        m, outs, ins = made
        for op in plan['ops']:
            def draw():
                if which in ('fourway', 'twoway'):
                    # Their tables name the inputs.
                    y = [{4: op['q'] % 2 + 0.}, {4: op['q'] % 2 + 0.}][0]
                else:
                    y = {i: op['q'] / 500. - 1 for i in ins}
                if which == 'fourway':
                    m2 = type(m)([3], [4, 5], rng=rng)
                    y = {4: op['q'] / 500. - 1, 5: op['q'] % 7 - 3.}
                    return m2.simulate(-1, [3], None, y, op['N'])
                if which == 'troll':
                    m.incorporate(op['q'], {3: 1.}, y)
                return m.simulate(-1, list(outs), None, y or None, op['N'])
            self.step(life, 'draw ' + which, draw, rng, must=True)

    # The samplers that everything else uses.
    def live_tools(self, plan, life):
        from cgpm.utils import general as gu, sampling as su, test as tu
        from scipy import stats
        for op in plan['ops']:
            rng = Rng(plan['seed'] + op['q'])
            r = random.Random(op['q'])
            o = op['op']

            def f():
                if o == 'table':
                    k = r.randint(1, 2)
                    n = r.randint(k, 3)
                    ts = [r.choice(['normal', 'beta', 'poisson', 'categorical',
                        'exponential', 'geometric', 'lognormal', 'bernoulli',
                        'vonmises', 'normal_trunc']) for _ in range(n)]
                    ds = [world.gen_distargs(r, t) for t in ts]
                    T, Zv, Zc = tu.gen_data_table(r.randint(2, 8),
                        [1. / k] * k, [[.5, .5]] * k, ts, ds, [.7] * n,
                        rng=rng)
                    return T, Zv, Zc
                if o == 'crp':
                    return gu.simulate_crp(r.randint(1, 8), 1.5, rng=rng)
                if o == 'crpc':
                    return gu.simulate_crp_constrained(6, 1.2, [[0, 2]],
                        [(1, 3)], {}, {}, rng=rng)
                if o == 'crpd':
                    return gu.simulate_crp_constrained_dependent(6, 1.2,
                        [[0, 2], [1, 5, 4]], rng=rng)
                if o == 'pflip':
                    return (gu.pflip([1, 2, 3], size=r.choice([1, 4]),
                        rng=rng), gu.log_pflip([-1., -2., -.5],
                        array=[3, 4, 5], rng=rng))
                if o == 'mh':
                    return su.mh_sample(0., lambda x: -x * x / 2, .5,
                        [-3, 3], num_samples=2, rng=rng)
                if o == 'slice':
                    return su.slice_sample(lambda: 0., lambda x: -x * x / 2, [-3, 3],
                        num_samples=2, burn=1, rng=rng)
                if o == 'reject':
                    return su.rejection_sample(stats.norm(0, 1).pdf,
                        lambda x: 3 * stats.norm(0, 2).pdf(x),
                        lambda: rng.normal(0, 2), N=2, rng=rng)
                if o == 'prng':
                    return gu.gen_rng(op['q']).rand(), \
                        gu.get_prng(op['q']).rand()
                if o == 'partition':
                    return tu.gen_partition(5, [.3, .7], rng)
            self.step(life, o, f, rng, must=o in ('mh', 'slice', 'reject', 'pflip'))


class RWorld(world.World):
    """A World whose draws all come from the one stream."""

    make_rng = Rng

    def __init__(self, init, life):
        world.World.__init__(self, init, core.Ctx())
        self.foreign = {}

    def reseed(self, s):
        pass

    op_compose = p12.QWorld.op_compose
    op_bulk = p12.QWorld.op_bulk


def apart(a, b):
    """The part where two texts differ."""
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
        min(len(a), len(b)))
    i = max(0, i - 60)
    return a[i:i + 160], b[i:i + 160]


PROP = P03()
