"""P12: queries never change the model.

Between every two edits or inference steps of a random history a simulated
client fires queries, some of them invalid and some of them with a random draw
that fails half way; every observable of the model must be as before.
"""

import copy
import math
import random

import numpy as np

from .. import core, simrng, world
from . import p07
from .hist import HistoryProp, core_repr

QUERIES = ['logpdf', 'simulate', 'score', 'dependence', 'similarity',
    'relevance', 'relevance', 'relevance', 'relview', 'mi', 'bulk', 'single',
    'accessors', 'badq']
BADQ = [k for k in p07.QUERY_KINDS if not k.startswith('kernel')]
DETERMINISTIC = ['logpdf', 'score', 'dependence', 'similarity', 'single',
    'accessors']


class Shift(object):
    """A composed component: normal around the sum of its inputs."""

    def __init__(self, output, inputs, rng):
        self.outputs, self.inputs, self.rng = [output], list(inputs), rng
        self.calls = 0

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        x = targets[self.outputs[0]]
        m = sum(inputs[i] for i in self.inputs)
        return -.5 * math.log(2 * math.pi) - .5 * (x - m)**2

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        m = sum(inputs[i] for i in self.inputs)
        def one():
            return {self.outputs[0]: m + float(self.rng.normal())}
        return one() if N is None else [one() for _ in range(N)]


class QWorld(p07.Rejecting):

    def __init__(self, init, ctx):
        world.World.__init__(self, init, ctx)
        self.state.rng = None
        rng = simrng.SimRng(init['seed'])
        self.state = world.build(init, rng)
        self.foreign = {}

    def op_compose(self, op):
        if len(self.state.hooked_cgpms) >= 2:
            raise world.Skip()
        cols = self.cols()
        out = 50 + len(self.foreign)
        inputs = sorted(set(cols[i % len(cols)] for i in op['t']))
        c = Shift(out, inputs, self.state.rng)
        tok = self.state.compose_cgpm(c)
        self.foreign[tok] = c
        return tok

    def op_uninc_dim(self, op):
        # Components composed with a column need it.
        return p07.Rejecting.op_uninc_dim(self, op)

    # Bulk and single forms.
    def op_bulk(self, op):
        st = self.state
        qs = []
        for k in range(op['n']):
            o = dict(op, t=[x + k for x in op['t']], row=op.get('row'))
            row, tgt, ev = self.resolve_query(o)
            qs.append((row if row is not None else -1, tgt, ev))
        rows = [q[0] for q in qs]
        evs = [q[2] for q in qs]
        if op['sim']:
            return st.simulate_bulk(rows, [q[1] for q in qs], evs,
                Ns=[op['N'] or 1] * len(qs))
        tv = [{c: world.cell(self.types[c][0], self.types[c][1], .4)
            for c in q[1]} for q in qs]
        return st.logpdf_bulk(rows, tv, evs)

    def op_single(self, op):
        cols, n = self.cols(), self.n_rows()
        a, b = cols[op['a'] % len(cols)], cols[op['b'] % len(cols)]
        r, q = op['a'] % n, op['b'] % n
        return (self.state.dependence_probability(a, b),
            float(self.state.row_similarity(r, q)),
            float(self.state.row_similarity(r, q, [a])))

    def op_relview(self, op):
        """The relevance of rows in the mixture of one block."""
        st, n = self.state, self.n_rows()
        c = self.cols()[op['a'] % len(self.cols())]
        t = op['b'] % n
        rows = [(op['b'] + 1 + x) % n for x in op['rows']]
        return float(st.view_for(c).relevance_probability(t, rows, c))

    def op_accessors(self, op):
        st = self.state
        out = (st.cctypes(), repr(st.distargs()), st.n_rows(), st.n_cols(),
            st.Zv(), st.Nv(), st.alpha(), st.data_array().tolist())
        if not st.hooked_cgpms:
            st.to_metadata()
        # What the accessors hand out may be scribbled over.
        st.Zv().clear()
        st.Nv().clear()
        for x in st.distargs():
            if x:
                x.pop('k', None)
        return repr(out)

    def op_badq(self, op):
        return self.op_bad(op)


class P12(HistoryProp):
    id = 'P12'
    constraints_rate = .1
    runs = {'quick': 4000, 'thorough': 200000}
    wall = {'quick': 35., 'thorough': 780.}
    weights = dict(inc_row=2, uninc_row=1, inc_dim=1, uninc_dim=1, force=1,
        inc_rows=.3, forces=.3,
        cctype=2, kernel=4, restore=.5, compose=1)
    stub = ['one composed component (normal around the sum of its inputs)']
    assumptions = ['observables are compared to 1e-9, since adding and '
        'removing a hypothetical row may round statistics',
        'failing draws are injected into queries over columns with collapsed '
        'components only']

    def gen(self, rng, tier):
        plan = dict(init=self.gen_init(rng, tier))
        missing = rng.choice([0., .3, .5])
        ops = []
        n = rng.randint(1, 8 if tier == 'quick' else 12)
        for _ in range(n):
            if rng.random() < .5:
                k = rng.choices(list(self.weights),
                    list(self.weights.values()))[0]
                if k == 'compose':
                    ops.append(dict(op='compose', s=rng.randint(1, 10**6),
                        t=[rng.randrange(6)
                            for _ in range(rng.randint(1, 2))]))
                else:
                    ops.append(world.gen_op(rng, k, world.PRIMITIVE, missing))
            for _ in range(rng.randint(1, 3)):
                ops.append(self.gen_query(rng))
        plan['ops'] = ops
        return plan

    def gen_query(self, rng):
        k = rng.choice(QUERIES)
        if k == 'badq':
            op = p07.PROP.gen_bad(rng)
            op['op'], op['kind'] = 'badq', rng.choice(BADQ)
        elif k == 'bulk':
            op = world.gen_op(rng, 'simulate')
            op.update(op='bulk', n=rng.randint(1, 3), sim=rng.random() < .5)
        elif k == 'single':
            op = dict(op='single', s=rng.randint(1, 10**6),
                a=rng.randrange(12), b=rng.randrange(12))
        elif k == 'relview':
            op = dict(op='relview', s=rng.randint(1, 10**6),
                a=rng.randrange(12), b=rng.randrange(12),
                rows=[rng.randrange(8) for _ in range(rng.randint(1, 3))])
        elif k == 'accessors':
            op = dict(op='accessors', s=1)
        else:
            op = world.gen_op(rng, k)
        op['query'] = True
        if rng.random() < .25:
            op['fail_at'] = rng.choice([1, 2, 3, 4, 6, 9, 15])
        return op

    def observe(self, w):
        st = w.state
        out = dict(snap=copy.deepcopy(world.snapshot(st)),
            hooked=[(t, list(c.outputs), list(c.inputs))
                for t, c in sorted(st.hooked_cgpms.items())],
            grids={c: world.plain(dict(st.dim_for(c).hyper_grids))
                for c in st.outputs})
        out['score'] = st.logpdf_score() if not st.Ci \
            else st.logpdf_likelihood()
        if not w.conditional_dims() and not st.hooked_cgpms:
            out['pred'] = [st.logpdf(-1, {c: world.cell(
                w.types[c][0], w.types[c][1], .37)}) for c in w.cols()]
        return out

    def execute(self, plan, ctx):
        w = QWorld(plan['init'], ctx)
        for op in plan['ops']:
            if not op.get('query'):
                if w.state.hooked_cgpms and op['op'] in ('restore',
                        'uninc_dim'):
                    continue
                try:
                    w.apply(op)
                except world.Skip:
                    pass
                if op['op'] == 'restore':
                    r = simrng.SimRng(op['s'])
                    self.reseat(w, r)
                continue
            before = self.observe(w)
            rows = {c: list(w.state.X[c]) for c in w.state.X}
            collapsed = all(w.types[c][0] in world.COLLAPSED
                for c in w.cols())
            arm = op.get('fail_at') if collapsed else None
            failed = None
            try:
                w.reseed(op['s'])
                if arm and isinstance(w.state.rng, simrng.SimRng):
                    w.state.rng.arm(arm)
                r = getattr(w, 'op_' + op['op'])(op)
            except world.Skip:
                w.state.rng.disarm()
                continue
            except simrng.Injected as e:
                failed, r = e, 'injected'
            except Exception as e:
                if not world.numeric(e):
                    raise
                failed, r = e, 'numeric'
                ctx.probe('numeric-failure')
            if w.state.rng.disarm():
                ctx.fault('failing-draw-' + op['op'])
            if op['op'] == 'badq':
                ctx.fault('invalid-query-' + op['kind'])
            ctx.ops += 1
            ctx.probe('query-' + op['op'])
            ctx.log(op['op'], core_repr(r))
            try:
                now = self.observe(w)
            except Exception as e:
                raise core.Violation('unusable', 'after query %s%s the model '
                    'cannot be read: %r' % (op['op'],
                    ' (failed)' if failed else '', e))
            d = core.differ(before, now, 1e-9, 1e-9)
            ctx.check(d is None, 'changed', lambda: 'query %s%s changed the '
                'model: %s' % (op['op'], ' (failed)' if failed else '', d))
            d = core.differ(rows, {c: list(w.state.X[c])
                for c in w.state.X}, 0., 0.)
            ctx.check(d is None, 'table-changed',
                lambda: 'query %s changed the table: %s' % (op['op'], d))
            if op['op'] in DETERMINISTIC and not failed \
                    and not w.state.is_composite():
                r2 = getattr(w, 'op_' + op['op'])(op)
                d = core.differ(world.plain(r), world.plain(r2), 0., 0.)
                ctx.check(d is None, 'not-repeatable', lambda: 'query %s '
                    'repeated gives another answer: %s' % (op['op'], d))
            fp = world.fingerprint(w.state)
            ctx.state(fp)
            ctx.log('state', fp)

    def reseat(self, w, r):
        """Give a restored state a generator whose draws can fail."""
        st = w.state
        objs = [st, st.crp]
        for v in st.views.values():
            objs += [v, v.crp] + list(v.dims.values())
        old = st.rng
        for o in objs:
            if hasattr(o, 'clusters'):
                for m in list(o.clusters.values()) + [o.aux_model]:
                    if getattr(m, 'rng', None) is old:
                        m.rng = r
            if o.rng is old:
                o.rng = r


PROP = P12()
