"""P18: ensemble weighting follows the likelihood of the evidence."""

import copy
import math
import random

import numpy as np
from scipy import stats

from .. import core, simproc, world
from .p14 import Stub

INF = float('inf')


def lse(xs):
    m = max(xs)
    if m == -INF:
        return -INF
    return m + math.log(sum(math.exp(x - m) for x in xs))


class P18(core.Prop):
    id = 'P18'
    runs = {'quick': 3000, 'thorough': 120000}
    wall = {'quick': 40., 'thorough': 780.}
    rule = ('one evaluation = one simulated ensemble with a history of edits '
        'and weighted questions; distinct = distinct event-log digests with '
        'at least two operations')
    real = ['cgpm.crosscat.engine', 'cgpm.crosscat.state and everything '
        'below it', 'cgpm.utils.general', 'cgpm.utils.parallel_map']
    stub = ['multiprocessing, pipes, select, time: simulated processes',
        'composed components: tabulated conditional distributions']
    assumptions = ['the shares of the states in a resample are judged by '
        'exact binomial tails at 1e-11',
        'evidence that every selected state finds impossible has no defined '
        'answer, and only must not corrupt the ensemble']

    def prepare(self):
        from .. import py2load
        py2load.install()
        from cgpm.utils import parallel_map as pm
        import cgpm.crosscat.engine
        import cgpm.crosscat.state
        import cgpm.network.importance
        from cgpm.utils import config
        for t in world.PRIMITIVE:
            config.cctype_class(t)
        simproc.install(pm)

    def gen(self, rng, tier):
        init = world.gen_init(rng, world.COLLAPSED, cols=(1, 4), rows=(2, 6))
        init.pop('Zrv', None)
        comp = None
        ids = [c['id'] for c in init['cols']]
        if rng.random() < .45:
            comp = dict(outs=[100, 101][:rng.randint(1, 2)],
                ins=rng.sample(ids, rng.randint(0, min(2, len(ids))))
                + [500, 501][:rng.randint(0, 2)],
                sharp=rng.random() < .4,
                tables=[rng.randint(1, 10**6) for _ in range(12)])
            comp['levels'] = [rng.choice([2, 3]) for _ in comp['outs']]
            rng.shuffle(comp['ins'])
        ops = []
        for _ in range(rng.randint(2, 9)):
            kind = rng.choice(['integrate'] * 4 + ['resample'] * 4 + ['row',
                'infer', 'infer', 'grow', 'shrink', 'mismatch'])
            op = dict(op=kind, s=rng.randint(1, 10**6),
                q=rng.randint(1, 10**9),
                u=[world.gen_u(rng, .2) for _ in range(5)], faults=[],
                sched=[], multi=0)
            if rng.random() < .3:
                from .p01 import gen_sched
                op['multi'] = 1
                op['sched'] = gen_sched(rng, 15)
                if rng.random() < .35:
                    op['faults'] = [rng.choice([
                        dict(kind='kill', worker=rng.randrange(3),
                            at=rng.randint(1, 8)),
                        dict(kind='forkfail', n=rng.randint(1, 3)),
                        dict(kind='stall', worker=rng.randrange(3),
                            at=rng.randint(1, 8), steps=rng.randint(5, 30)),
                        ])]
            ops.append(op)
        return dict(init=init, comp=comp, ops=ops, ncpu=rng.choice([1, 2, 3]),
            n_states=rng.choice([1, 2, 2, 3, 4, 5]))

    def shrink(self, plan):
        for p in world.shrink_plan(plan):
            yield p
        if plan['n_states'] > 1:
            yield dict(plan, n_states=plan['n_states'] - 1)
        if plan['comp']:
            yield dict(plan, comp=None)
        for i, op in enumerate(plan['ops']):
            if op['multi']:
                ops = list(plan['ops'])
                ops[i] = dict(op, multi=0, sched=[], faults=[])
                yield dict(plan, ops=ops)

    def execute(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        eng = self.build(plan)
        self.made = len(eng.states)
        for op in plan['ops']:
            eng.rng.seed(op['s'])
            try:
                getattr(self, 'op_' + op['op'])(eng, op)
            except world.Skip:
                ctx.log('skip', op['op'])
                continue
            ctx.ops += 1
            ctx.probe(op['op'])
            ctx.log(op['op'], len(eng.states))
            for s in eng.states:
                ctx.state(world.fingerprint(s))

    def build(self, plan):
        from cgpm.crosscat.engine import Engine
        init = plan['init']
        X = np.asarray([world.data_of(c) for c in init['cols']],
            dtype=float).T
        self.cols = [c['id'] for c in init['cols']]
        self.types = {c['id']: (c['cctype'], c['distargs'])
            for c in init['cols']}
        eng = Engine(X, num_states=plan['n_states'], outputs=self.cols,
            cctypes=[c['cctype'] for c in init['cols']],
            distargs=[copy.deepcopy(c['distargs']) for c in init['cols']],
            rng=np.random.RandomState(init['seed']), multiprocess=0)
        eng.transition(N=1, progress=False, multiprocess=0)
        self.compose(eng)
        return eng

    def compose(self, eng):
        c = self.plan['comp']
        if not c:
            return
        eng.compose_cgpm([Stub(c['outs'], c['ins'], c['levels'],
            c['tables'][i % len(c['tables'])], c['sharp'])
            for i in range(eng.num_states())], multiprocess=0)

    # -- the ensemble's life --------------------------------------------------
    def op_row(self, eng, op):
        if eng.states[0].n_rows() >= 8:
            raise world.Skip()
        obs = {}
        for j, c in enumerate(self.cols):
            u = op['u'][j % len(op['u'])]
            if u is not None:
                obs[c] = world.cell(self.types[c][0], self.types[c][1], u)
        eng.incorporate(eng.states[0].n_rows(), obs, multiprocess=0)

    def op_infer(self, eng, op):
        some = [i for i in range(eng.num_states()) if (op['q'] >> i) & 1]
        eng.transition(N=1 + op['q'] % 3, statenos=some, progress=False,
            multiprocess=0)

    def op_grow(self, eng, op):
        if self.plan['comp'] or eng.num_states() >= 6:
            raise world.Skip()
        eng.add_state(count=1, multiprocess=0)

    def op_shrink(self, eng, op):
        if eng.num_states() < 2:
            raise world.Skip()
        eng.drop_state(op['q'] % eng.num_states())

    # -- questions ----------------------------------------------------------
    def question(self, eng, op):
        rng = random.Random(op['q'])
        n = eng.num_states()
        sel = None
        if rng.random() < .65:
            sel = [i for i in range(n) if rng.random() < .6] \
                or [rng.randrange(n)]
            rng.shuffle(sel)
            if rng.random() < .1:
                sel.append(rng.choice(sel))
            if rng.random() < .3:
                sel = tuple(sel)
        idx = list(range(n)) if sel is None else list(sel)
        st = eng.states[0]
        row = rng.choice([-1, -1, None] + list(range(st.n_rows())))
        free = [c for c in self.cols if row in (None, -1)
            or world.isnan(st.X[c][row])]
        E, inputs = {}, {}
        style = rng.random()
        if style > .12:
            for c in free:
                if rng.random() < .5:
                    E[c] = world.cell(self.types[c][0], self.types[c][1],
                        rng.randint(0, 999) / 1000.)
            if self.plan['comp'] and rng.random() < .8:
                c = self.plan['comp']
                for q, k in zip(c['outs'], c['levels']):
                    if rng.random() < .7:
                        E[q] = rng.randrange(k)
                if any(q in E for q in c['outs']):
                    for i in c['ins']:
                        if i in self.cols:
                            if i in free and i not in E:
                                E[i] = world.cell(self.types[i][0],
                                    self.types[i][1],
                                    rng.randint(0, 999) / 1000.)
                        else:
                            inputs[i] = round(4 * rng.random() - 2, 2)
            if rng.random() < .25:
                # Evidence so distant that its density underflows.
                for c in sorted(E):
                    t = self.types.get(c, (None,))[0]
                    if t in ('normal', 'lognormal', 'exponential'):
                        E[c] = 10.**rng.randint(3, 120)
                        if t == 'normal' and rng.random() < .5:
                            E[c] = -E[c]
                    elif t in ('poisson', 'geometric'):
                        E[c] = float(rng.randint(10**3, 10**5))
            if rng.random() < .08:
                # Evidence outside the support of a column.
                bad = [(c, world.bad_cell(self.types[c][0], self.types[c][1],
                    .4)) for c in sorted(E) if c in self.types]
                bad = [(c, x) for c, x in bad if x is not None]
                if bad:
                    c, x = rng.choice(bad)
                    E[c] = x
        try:
            w = [self.weight(eng.states[i], row, E, inputs) for i in idx]
        except Exception:
            # The states themselves refuse this evidence.
            raise world.Skip()
        E_arg = E or rng.choice([None, {}])
        in_arg = inputs or rng.choice([None, {}])
        return rng, sel, idx, row, E, E_arg, in_arg, w

    def weight(self, state, row, E, inputs):
        if not E:
            return 0.
        s = copy.deepcopy(state)
        return float(s.logpdf(row, dict(E), None, dict(inputs) or None))

    def run(self, f, op):
        if not op['multi']:
            return f(), None, False
        with simproc.Simulation(ncpu=self.plan['ncpu'], sched=op['sched'],
                faults=op['faults'], ctx=self.ctx) as sim:
            try:
                r, err = f(), None
            except simproc.Deadlock:
                raise
            except Exception as e:
                r, err = None, e
            return r, err, bool(sim.fired)

    def ask(self, eng, op, f, what):
        shots = [world.snapshot(s) for s in eng.states]
        if op['multi']:
            self.ctx.probe('multi')
            r, err, fired = self.run(f, op)
            if err is not None:
                self.ctx.check(fired, 'spurious-error', lambda: '%s raised '
                    '%s: %.400s' % (what, type(err).__name__, err))
        else:
            r, err = f(), None
        for i, s in enumerate(eng.states):
            d = core.differ(world.snapshot(s), shots[i])
            self.ctx.check(d is None, 'ensemble-changed', lambda: '%s '
                'changed state %d: %s' % (what, i, d))
        return r, err

    def op_integrate(self, eng, op):
        rng, sel, idx, row, E, E_arg, in_arg, w = self.question(eng, op)
        p = [round(-9 * rng.random(), 3) for _ in idx]
        if rng.random() < .1:
            p[rng.randrange(len(p))] = -INF
        args = copy.deepcopy((p, E_arg, in_arg, sel))
        what = 'combining %r under %r; %r of row %r over states %r' % (
            p, E_arg, in_arg, row, sel)
        if max(w) == -INF:
            self.ctx.fault('evidence impossible in every state')
            return
        if min(w) == -INF:
            self.ctx.fault('evidence impossible in a state')
        if max(w) < -800:
            self.ctx.probe('distant evidence')
        got, err = self.ask(eng, op, lambda:
            eng._likelihood_weighted_integrate(p, row, E_arg, in_arg,
                statenos=sel, multiprocess=op['multi']), what)
        if err is not None:
            return
        self.ctx.check(core.differ(args, (p, E_arg, in_arg, sel)) is None,
            'argument-mutated', lambda: '%s changed its arguments' % what)
        want = lse([a + b for a, b in zip(p, w)]) - lse(w)
        self.ctx.check(core.close(got, want, 1e-6, 1e-6), 'integral', lambda:
            '%s is %r; the states find the evidence %r likely, which makes '
            '%r' % (what, got, w, want))

    def op_resample(self, eng, op):
        rng, sel, idx, row, E, E_arg, in_arg, w = self.question(eng, op)
        N = rng.choice([1, 2, 7, 150, 150])
        samples = [[{'s': j, 'i': i} for i in range(N)]
            for j in range(len(idx))]
        given = copy.deepcopy((samples, E_arg, in_arg, sel))
        what = 'resampling %d samples of each state under %r; %r of row %r ' \
            'over states %r' % (N, E_arg, in_arg, row, sel)
        if max(w) == -INF:
            self.ctx.fault('evidence impossible in every state')
            return
        if min(w) == -INF:
            self.ctx.fault('evidence impossible in a state')
        got, err = self.ask(eng, op, lambda:
            eng._likelihood_weighted_resample(samples, row, E_arg, in_arg,
                statenos=sel, multiprocess=op['multi']), what)
        if err is not None:
            return
        chk = self.ctx.check
        chk(core.differ(given, (samples, E_arg, in_arg, sel)) is None,
            'argument-mutated', lambda: '%s changed its arguments' % what)
        got = list(got)
        chk(len(got) == N, 'count', lambda: '%s gave %d' % (what, len(got)))
        tags = []
        for g in got:
            chk(isinstance(g, dict) and set(g) == {'s', 'i'}
                and 0 <= g['s'] < len(idx) and 0 <= g['i'] < N, 'invented',
                lambda: '%s gave %r' % (what, g))
            tags.append((g['s'], g['i']))
        chk(len(set(tags)) == N, 'duplicated', lambda: '%s returned one '
            'sample twice: %r' % (what, sorted(tags)[:20]))
        z = lse(w)
        for j in range(len(idx)):
            pj = math.exp(w[j] - z)
            c = sum(1 for t in tags if t[0] == j)
            tail = stats.binom.sf(c - 1, N, pj) if c > pj * N \
                else stats.binom.cdf(c, N, pj)
            chk(tail > 1e-11, 'share', lambda: '%s: %d samples are of state '
                '%d, whose share is %.4f (weights %r)' % (what, c, idx[j],
                    pj, w))

    def op_mismatch(self, eng, op):
        """Densities or samples for another number of states."""
        rng, sel, idx, row, E, E_arg, in_arg, w = self.question(eng, op)
        n = len(idx) + rng.choice([-1, 1, 2])
        if n < 1:
            raise world.Skip()
        if rng.random() < .5:
            f = lambda: eng._likelihood_weighted_integrate([-1.] * n, row,
                E_arg, in_arg, statenos=sel, multiprocess=0)
        else:
            f = lambda: eng._likelihood_weighted_resample(
                [[{'s': j}] * 3 for j in range(n)], row, E_arg, in_arg,
                statenos=sel, multiprocess=0)
        try:
            got = f()
        except Exception as e:
            self.ctx.fault('another number of states')
            self.ctx.log('rejected', type(e).__name__)
            return
        self.ctx.check(False, 'accepted', lambda: 'answers of %d states were '
            'weighed by %d states under %r over %r: %.200r' % (n, len(idx),
                E_arg, sel, got))


PROP = P18()
