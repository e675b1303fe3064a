"""P06: the stored table is exactly what the client put in.

Simulated client: an ensemble of up to three states edited through the Engine
or one state at a time, with inference, queries, rejected operations and
restores in between, and a client which keeps scribbling over every object it
ever passed in.
"""

import copy
import random

import numpy as np

from .. import core, world
from . import p07
from .hist import HistoryProp, core_repr

ENGINE_OPS = ['inc_row', 'uninc_row', 'inc_dim', 'uninc_dim', 'force',
    'cctype', 'inc_rows', 'forces']


class EngineFacade(object):
    """Routes the edits of a World to the whole ensemble."""

    def __init__(self, engine):
        self.__dict__['engine'] = engine

    def __getattr__(self, name):
        f = getattr(type(self.engine), name, None)
        if name in ('incorporate', 'unincorporate', 'incorporate_dim',
                'unincorporate_dim', 'force_cell', 'update_cctype',
                'incorporate_bulk', 'force_cell_bulk'):
            def call(*a, **k):
                return getattr(self.engine, name)(*a, multiprocess=0, **k)
            return call
        return getattr(self.engine.states[0], name)


class Tracked(object):
    """Objects the client passed in, with what they held then."""

    def __init__(self):
        self.items = []

    def add(self, name, obj):
        self.items.append((name, obj, copy.deepcopy(obj)))
        return obj

    def changed(self):
        for name, obj, was in self.items:
            d = core.differ(world.plain(obj), world.plain(was), 0., 0.)
            if d:
                return '%s: %s' % (name, d)
        return None

    def scribble(self):
        """The client reuses its objects for something else."""
        for _name, obj, _was in self.items:
            scribble(obj)
        self.items = []


def scribble(obj):
    if isinstance(obj, np.ndarray):
        obj[...] = 777.
    elif isinstance(obj, list):
        for x in obj:
            scribble(x)
        del obj[1:]
        if obj and isinstance(obj[0], (int, float)):
            obj[0] = 99
    elif isinstance(obj, dict):
        for x in obj.values():
            scribble(x)
        for k in list(obj):
            if isinstance(obj[k], (int, float)):
                obj[k] = 55
        obj['scribble'] = 1


class TWorld(p07.Rejecting):
    """World whose client tracks and scribbles its arguments."""

    def __init__(self, init, ctx, state, tracked):
        self.ctx, self.init, self.state = ctx, init, state
        self.table = world.table_of(init)
        self.types = {c['id']: (c['cctype'], c['distargs'])
            for c in init['cols']}
        self.tokens, self.iters = {}, {}
        self.tracked = tracked

    def op_cctype(self, op):
        # Like World.op_cctype, keeping hold of the distargs passed.
        col = self.pick(self.cols(), op['col'])
        t, d = op['cctype'], op['distargs']
        if col in self.used_inputs() or not world.fits(t, d, self.table[col]):
            raise world.Skip()
        passed = self.tracked.add('distargs of update_cctype',
            copy.deepcopy(d))
        if t == 'vonmises' and len(set(v for v in self.table[col]
                if not world.isnan(v))) < 2:
            raise world.Skip()
        if t in world.CONDITIONAL:
            view = self.state.view_for(col)
            cand = [c for c in sorted(view.dims) if c != col
                and self.types[c][0] not in world.CONDITIONAL]
            if not cand:
                raise world.Skip()
            if op.get('inputs') is not None:
                sel = sorted(set(cand[i % len(cand)] for i in op['inputs']))
                passed = self.tracked.add('distargs of update_cctype',
                    dict(copy.deepcopy(d) or {}, inputs=list(sel)))
        self.state.update_cctype(col, t, passed)
        self.types[col] = (t, d)
        return (col, t)

    def op_inc_dim(self, op):
        # Like World.op_inc_dim, keeping hold of the objects passed.
        st = self.state
        if len(self.cols()) >= op.get('max', 6):
            raise world.Skip()
        if self.conditional_dims() and op.get('v') is None:
            raise world.Skip()
        col = self.pick([i for i in range(31) if i not in st.outputs],
            op['id'])
        T = [world.cell(op['cctype'], op['distargs'],
            op['u'][i % len(op['u'])]) for i in range(self.n_rows())]
        T[0] = world.cell(op['cctype'], op['distargs'], .2)
        T[1] = world.cell(op['cctype'], op['distargs'], .7)
        v = op.get('v')
        if v is not None:
            V = sorted(st.views)
            v = V[v % len(V)]
        given = self.tracked.add('data of incorporate_dim',
            np.array(T) if op.get('array') else list(T))
        outs = self.tracked.add('outputs of incorporate_dim', [col])
        dist = self.tracked.add('distargs of incorporate_dim',
            copy.deepcopy(op['distargs']))
        st.incorporate_dim(given, outs, cctype=op['cctype'], distargs=dist,
            v=v)
        self.table[col] = list(T)
        self.types[col] = (op['cctype'], op['distargs'])
        return col


class P06(HistoryProp):
    id = 'P06'
    runs = {'quick': 3000, 'thorough': 150000}
    wall = {'quick': 35., 'thorough': 780.}
    weights = dict(inc_row=3, uninc_row=2, inc_dim=3, uninc_dim=2, force=3,
        cctype=3, kernel=3, transition=1, restore=2, relevance=3, logpdf=1,
        simulate=2, mi=.3, bad=3, inc_rows=1, forces=1.5)
    real = HistoryProp.real + ['cgpm.crosscat.engine (sequential mapper)']
    assumptions = ['cells put in are missing or in the support of the type']

    def gen(self, rng, tier):
        init = self.gen_init(rng, tier)
        if rng.random() < .5:
            # Cluster identities differ per state: leave them to the states.
            init.pop('Zrv', None)
        missing = rng.choice([0., .2, .5])
        n = rng.randint(2, 12)
        ops = []
        kinds = [k for k in self.weights if rng.random() < .8] \
            or list(self.weights)
        ws = [self.weights[k] for k in kinds]
        for _ in range(n):
            k = rng.choices(kinds, ws)[0]
            if k == 'bad':
                op = p07.PROP.gen_bad(rng)
            else:
                op = world.gen_op(rng, k, world.PRIMITIVE, missing)
            op['at'] = rng.choice(['all', 0, 1, 2])
            op['scribble_all'] = rng.random() < .3
            op['array'] = rng.random() < .3
            ops.append(op)
        schema = None
        if rng.random() < .25:
            levels = rng.choice([['a', 'b', 'c', 'd', 'e'],
                ['B', 'a', 'NAN', 'z9', 'x'], ['no', 'yes', 'maybe', '?', ''],
                [3, 1, 2, 0, 4], [1, 2, 0, 5, 3], [.5, 2., -1., 7., 1.]])
            if rng.random() < .3:
                # Many categories.
                init = world.gen_init(rng, world.PRIMITIVE + ['categorical',
                    'bernoulli'] * 3, rows=(8, 30))
                init.pop('Zrv', None)
                levels = ['level %02d' % i for i in range(40)]
                for c in init['cols']:
                    if c['cctype'] == 'categorical':
                        c['distargs'] = {'k': rng.choice([8, 15, 30])}
            for c in init['cols']:
                c['declared'] = rng.random() < .5
            # Sorted, as the codes follow the order of the names.
            schema = dict(levels=sorted(levels), seed=rng.randrange(10**6))
            if rng.random() < .5 and len(levels) < 9:
                n = len(levels)
                schema['levels'] = sorted(levels)[n - 4:]
        return dict(init=init, ops=ops, schema=schema,
            n_states=rng.choice([1, 2, 3]),
            path=rng.choice(['state', 'engine', 'metadata']))

    def build(self, plan, tracked):
        from cgpm.crosscat.engine import Engine
        init = plan['init']
        if plan.get('schema'):
            X, outputs, cctypes, distargs = self.read(plan, tracked)
        else:
            data = [world.data_of(c) for c in init['cols']]
            X = np.asarray(data, dtype=float).T.copy()
            outputs = [c['id'] for c in init['cols']]
            cctypes = [c['cctype'] for c in init['cols']]
            distargs = [copy.deepcopy(c['distargs']) for c in init['cols']]
        kw = dict(outputs=tracked.add('outputs', outputs),
            cctypes=tracked.add('cctypes', cctypes),
            distargs=tracked.add('distargs', distargs))
        X = tracked.add('X', X)
        if init.get('Zv') is not None:
            kw['Zv'] = tracked.add('Zv', dict(zip(list(outputs),
                init['Zv'])))
            if init.get('Zrv') is not None:
                kw['Zrv'] = tracked.add('Zrv', {int(v): list(z)
                    for v, z in init['Zrv'].items()})
        if init.get('alpha') is not None:
            kw['alpha'] = init['alpha']
        eng = Engine(X, num_states=plan['n_states'],
            rng=np.random.RandomState(init['seed']), multiprocess=0, **kw)
        if plan['path'] == 'metadata':
            m = tracked.add('metadata', eng.to_metadata())
            eng = Engine.from_metadata(m,
                rng=np.random.RandomState(init['seed'] + 1), multiprocess=0)
        return eng

    def read(self, plan, tracked):
        """The initial table, read by parse_schema from a data frame in which
        categories have names."""
        import pandas as pd
        from cgpm.utils import data as du
        ctx, init, how = self.ctx, plan['init'], plan['schema']
        rng = random.Random(how['seed'])
        frame, schema, names = {}, [], {}
        for c in init['cols']:
            name = 'column %d' % c['id']
            values = world.data_of(c)
            t, d = c['cctype'], c['distargs']
            if t in ('bernoulli', 'categorical'):
                level = how['levels'][:2 if t == 'bernoulli' else d['k']]
                seen = sorted(set(v for v in values if not world.isnan(v)))
                names[name] = {level[int(v)]: i for i, v in enumerate(seen)}
                values = [v if world.isnan(v) else level[int(v)]
                    for v in values]
            if rng.random() < .5:
                values = ['NA' if world.isnan(v) else v for v in values]
            stattype = t
            if t == 'categorical' and c.get('declared'):
                stattype = 'categorical(k=%d)' % d['k']
            if t == 'normal_trunc':
                stattype = 'normal_trunc(l=%r,h=%r)' % (d['l'], d['h'])
            frame[name] = values
            schema.append((name, stattype, c['id']))
            if rng.random() < .2:
                frame['extra ' + name] = list(range(init['rows']))
                schema.append(('extra ' + name, 'ignore', 99))
        order = list(frame)
        rng.shuffle(order)
        frame = pd.DataFrame({n: frame[n] for n in order})
        was, asked = frame.copy(), copy.deepcopy(schema)
        T, outputs, cctypes, distargs, valmap, columns = du.parse_schema(
            schema, frame)
        ctx.probe('schema')
        ctx.check(was.equals(frame) and asked == schema, 'argument-mutated',
            lambda: 'parse_schema changed the data frame or schema of the '
            'client')
        ctx.check(list(columns) == [a for a, b, _i in asked if b != 'ignore']
            and list(outputs) == [c['id'] for c in init['cols']],
            'schema-columns', lambda: 'parse_schema gave columns %r' % (
                columns,))
        d = core.differ(world.plain(valmap), names)
        ctx.check(d is None, 'schema-categories', lambda: 'parse_schema '
            'codes the categories as %r, sorted names give %r' % (
                valmap, names))
        want = [c['cctype'] for c in init['cols']]
        ctx.check(list(cctypes) == want, 'schema-types', lambda:
            'parse_schema gave types %r, the schema says %r' % (
                cctypes, want))
        return np.asarray(T, dtype=float), list(outputs), list(cctypes), \
            distargs

    def coded(self, plan):
        """The plan whose categories are coded as a schema codes them."""
        init = copy.deepcopy(plan['init'])
        for c in init['cols']:
            if c['cctype'] not in ('bernoulli', 'categorical'):
                continue
            values = world.data_of(c)
            seen = sorted(set(v for v in values if not world.isnan(v)))
            if c['cctype'] == 'bernoulli' and len(seen) < 2:
                return None
            c['data'] = [v if world.isnan(v) else float(seen.index(v))
                for v in values]
            if c['cctype'] == 'categorical' and not c.get('declared'):
                c['distargs'] = {'k': len(seen)}
        return init

    def execute(self, plan, ctx):
        tracked = Tracked()
        self.ctx = ctx
        init = plan['init']
        if plan.get('schema'):
            init = self.coded(plan)
            if init is None:
                plan = dict(plan, schema=None)
                init = plan['init']
        eng = self.build(plan, tracked)
        ws = [TWorld(init, ctx, s, tracked) for s in eng.states]
        self.compare(ctx, ws, tracked, 'construction')
        for op in plan['ops']:
            at = op.get('at', 0)
            if at == 'all' and op['op'] in ENGINE_OPS:
                done = self.apply_all(eng, ws, op, ctx)
            else:
                i = (0 if at == 'all' else at) % len(ws)
                done = self.apply_one(eng, ws, i, op, ctx)
            if not done:
                ctx.log('skip', op['op'])
                continue
            ctx.ops += 1
            ctx.probe('op-%s-%s' % (op['op'], 'all' if at == 'all' else 'one'))
            self.compare(ctx, ws, tracked, op['op'])
            if op.get('scribble_all'):
                ctx.fault('client-scribbles')
                before = [world.snapshot(w.state) for w in ws]
                tracked.scribble()
                for w, b in zip(ws, before):
                    d = core.differ(world.snapshot(w.state), b, 0., 0.)
                    ctx.check(d is None, 'client-object-shared',
                        lambda: 'a change the client made to an object it '
                        'passed earlier reached the model: %s' % d)
            for w in ws:
                ctx.state(world.fingerprint(w.state))

    def apply_one(self, eng, ws, i, op, ctx):
        w = ws[i]
        others = [(x, world.snapshot(x.state, rng=True))
            for x in ws if x is not w]
        before = world.snapshot(w.state)
        try:
            r = w.apply(op)
        except world.Skip:
            return False
        eng.states[i] = w.state
        ctx.log(i, op['op'], core_repr(r))
        for x, b in others:
            d = core.differ(world.snapshot(x.state, rng=True), b, 0., 0.)
            ctx.check(d is None, 'other-state-changed',
                lambda: '%s on one state changed another: %s' % (op['op'], d))
        if op['op'] == 'bad':
            pass
        return True

    def apply_all(self, eng, ws, op, ctx):
        tabs = [{c: len(w.table[c]) for c in w.table} for w in ws]
        if any(t != tabs[0] for t in tabs) or any(
                w.types != ws[0].types for w in ws):
            return False
        if any(core.differ(w.table, ws[0].table, 0., 0.) for w in ws):
            return False
        op = dict(op)
        op.pop('z', None)
        if op['op'] == 'cctype' and op['cctype'] in world.CONDITIONAL:
            return False
        if op['op'] == 'inc_dim':
            vs = set.intersection(*[set(w.state.views) for w in ws])
            if op.get('v') is not None:
                if any(set(w.state.views) != vs for w in ws):
                    return False
            elif any(w.conditional_dims() for w in ws):
                return False
        if any(w.conditional_dims() for w in ws):
            return False
        lead = ws[0]
        mine = lead.state
        lead.state = EngineFacade(eng)
        try:
            r = lead.apply(op)
        except world.Skip:
            lead.state = mine
            return False
        for w, s in zip(ws, eng.states):
            w.state = s
        for w in ws[1:]:
            w.table = copy.deepcopy(lead.table)
            w.types = dict(lead.types)
        ctx.log('all', op['op'], core_repr(r))
        return True

    def compare(self, ctx, ws, tracked, what):
        for i, w in enumerate(ws):
            st = w.state
            ctx.check(list(st.outputs) == list(w.table), 'columns',
                lambda: 'after %s state %d has columns %r, client table %r'
                % (what, i, st.outputs, list(w.table)))
            got = {c: list(st.X[c]) for c in st.X}
            d = core.differ(got, w.table, 0., 0.)
            ctx.check(d is None, 'cells', lambda: 'after %s the table of '
                'state %d differs from the client table: %s' % (what, i, d))
            A = st.data_array()
            d = core.differ(np.asarray(A, float).T.tolist(),
                [w.table[c] for c in st.outputs], 0., 0.)
            ctx.check(d is None, 'data-array', lambda: 'after %s '
                'data_array() differs from the client table: %s' % (what, d))
            for c in st.outputs:
                ctx.check(st.dim_for(c).name() == w.types[c][0], 'cctype',
                    lambda: 'after %s column %r has type %r, not %r' % (
                        what, c, st.dim_for(c).name(), w.types[c][0]))
            for v in st.views.values():
                ctx.check(v.X is st.X or core.differ({c: list(v.X[c])
                    for c in st.outputs}, w.table, 0., 0.) is None,
                    'view-table', 'a view reads a different table')
        d = tracked.changed()
        ctx.check(d is None, 'argument-mutated', lambda: '%s changed an '
            'object of the client: %s' % (what, d))


PROP = P06()
