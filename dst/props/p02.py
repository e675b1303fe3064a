"""P02: an ensemble operation equals per-state execution, all or nothing.

A real Engine runs over simulated workers (dst/simproc.py).  Each operation is
also applied to private copies of the selected states, one after another, by
calling the State directly; the ensemble has to agree with that, or raise and
be unchanged.
"""

import copy
import pickle
import random

import numpy as np

from .. import core, simproc, world
from . import p12
from .hist import core_repr

MODIFY = ['transition', 'transition', 'incorporate', 'unincorporate',
    'incorporate_bulk', 'force_cell', 'force_cell_bulk', 'incorporate_dim',
    'unincorporate_dim', 'update_cctype', 'alter', 'transition_foreign',
    'transition_lovecat']
QUERY = ['logpdf', 'logpdf_bulk', 'logpdf_score', 'logpdf_likelihood',
    'dependence_probability', 'dependence_probability_pairwise',
    'row_similarity', 'row_similarity_pairwise', 'relevance_probability']
SEEDED = ['simulate', 'simulate_bulk', 'mutual_information']
OTHER = ['add_state', 'add_state', 'drop_state', 'compose', 'restore']
NO_STATENOS = ['incorporate', 'unincorporate', 'incorporate_bulk',
    'force_cell', 'force_cell_bulk', 'incorporate_dim', 'unincorporate_dim',
    'update_cctype']


class Offset(object):
    """A component which can be rebuilt from metadata."""

    def __init__(self, output, inputs, shift, rng=None, steps=0):
        self.outputs, self.inputs, self.rng = [output], list(inputs), rng
        self.shift, self.steps = shift, steps

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        x = targets[self.outputs[0]]
        return -abs(x - sum(inputs[i] for i in self.inputs) - self.shift) \
            - .01 * self.steps

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        def one():
            return {self.outputs[0]: sum(inputs[i] for i in self.inputs)
                + self.shift + float(self.rng.normal())}
        return one() if N is None else [one() for _ in range(N)]

    def transition(self, N=None):
        self.steps += 1 + int(self.rng.randint(0, 5))

    def to_metadata(self):
        return dict(args=[self.outputs[0], list(self.inputs), self.shift],
            steps=self.steps, factory=('dst.props.p02', 'Offset'))

    @classmethod
    def from_metadata(cls, metadata, rng=None):
        return cls(*metadata['args'], rng=rng, steps=metadata['steps'])


class Stop(Exception):
    """The run ends here."""


class Unpicklable(object):
    def __reduce__(self):
        raise TypeError('cannot be pickled')


def alter_alpha(state):
    state.crp.hypers['alpha'] *= 1.5
    return state


def alter_draw(state):
    state.diagnostics['iterations']['drawn'] = int(state.rng.randint(10**6))
    return state


def alter_new(state):
    from cgpm.crosscat.state import State
    return State.from_metadata(state.to_metadata(),
        rng=np.random.RandomState(int(state.rng.randint(10**6))))


def alter_fail(state):
    state.crp.hypers['alpha'] = 77.
    if int(state.rng.randint(10)) < 5:
        raise ValueError('alter failed')
    return state


def alter_unpicklable(state):
    state.client = Unpicklable()
    return state


def alter_exit(state):
    state.crp.hypers['alpha'] = 78.
    raise SystemExit(0)


ALTER = dict(alpha=alter_alpha, draw=alter_draw, new=alter_new,
    fail=alter_fail, unpicklable=alter_unpicklable, exit=alter_exit)


def hooked(state):
    return {t: (type(c).__name__, c.to_metadata())
        for t, c in state.hooked_cgpms.items()}


def snap(state, rng):
    s = world.snapshot(state, rng=rng)
    s['components'] = repr(sorted(hooked(state).items()))
    return s


class P02(core.Prop):
    id = 'P02'
    rule = ('a run in which at least two ensemble operations ran over '
        'simulated workers')
    runs = {'quick': 2500, 'thorough': 120000}
    wall = {'quick': 50.0, 'thorough': 780.0}
    run_timeout = 60
    real = ['cgpm.crosscat.engine', 'cgpm.utils.parallel_map',
        'cgpm.crosscat.state and everything below it']
    stub = ['multiprocessing, pipes, select, time: simulated processes',
        'crosscat.LocalEngine: scripted']
    assumptions = ['forked memory is modelled by a deep copy',
        'operations bounded by wall time are left to P11']

    def prepare(self):
        from .. import py2load, backends
        py2load.install()
        backends.install_crosscat()
        from cgpm.utils import parallel_map as pm
        import cgpm.crosscat.engine
        import cgpm.crosscat.state
        import cgpm.crosscat.lovecat
        from cgpm.utils import config
        for t in world.PRIMITIVE:
            config.cctype_class(t)
        simproc.install(pm)

    # -- plans -------------------------------------------------------------

    def gen(self, rng, tier):
        types = rng.choice([world.COLLAPSED, ['normal', 'categorical']])
        init = world.gen_init(rng, types, cols=(1, 4), rows=(2, 6))
        init.pop('Zrv', None)
        pools = [MODIFY, QUERY, SEEDED, OTHER]
        ops = []
        kinds = [rng.choice(rng.choices(pools, [5, 3, 2, 2])[0])
            for _ in range(rng.randint(1, 7))]
        if rng.random() < .3:
            # A composite ensemble, and what concerns its components.
            kinds[:0] = ['compose'] * rng.randint(1, 2)
            kinds += rng.choices(['transition_foreign', 'logpdf', 'simulate',
                'logpdf_bulk', 'simulate_bulk', 'restore'],
                k=rng.randint(1, 3))
        for kind in kinds:
            op = dict(op=kind, s=rng.randint(1, 10**6),
                r=[rng.randrange(60) for _ in range(6)],
                u=[world.gen_u(rng, .2) for _ in range(6)],
                multi=int(rng.random() < .85),
                statenos=rng.choice([None, None, 'some', 'some', 'none',
                    'tuple']))
            if kind == 'transition':
                ks = ['alpha', 'view_alphas', 'column_hypers', 'rows',
                    'columns', 'column_params']
                op['kernels'] = rng.sample(ks, rng.randint(1, 3))
                op['N'] = rng.choice([None, 1, 2])
                op['ckpt'] = rng.choice([None, 1, 2])
                op['sub'] = rng.choice([None, None, 'cols', 'rows', 'views'])
                op['progress'] = rng.random() < .2
            if kind in ('update_cctype', 'incorporate_dim'):
                t = rng.choice(types + ['linear_regression'] * 3
                    if kind == 'update_cctype' else types)
                op.update(cctype=t, distargs=world.gen_distargs(rng, t),
                    v=rng.choice([None, None, 0, 1]))
            if kind == 'alter':
                op['funcs'] = [rng.choice(list(ALTER)) for _ in
                    range(rng.choice([0, 1, 1, 2]))]
            if kind in ('incorporate', 'incorporate_bulk'):
                op['z'] = rng.choice([None, None, 0, 1, 2])
            if kind in SEEDED + ['logpdf', 'logpdf_bulk']:
                op['row'] = rng.choice([None, None, 0, 1, 2])
                op['acc'] = rng.choice([None, None, 2])
                op['N'] = rng.choice([None, 1, 2])
            op['bad'] = rng.random() < .12
            faults = []
            if op['multi'] and rng.random() < .35:
                k = rng.choice(['kill', 'kill', 'forkfail', 'pipefail',
                    'stall', 'interrupt'])
                f = dict(kind=k)
                if k in ('kill', 'stall'):
                    f.update(worker=rng.randrange(3), at=rng.randint(1, 8))
                    if k == 'stall':
                        f['steps'] = rng.randint(5, 40)
                elif k == 'interrupt':
                    f['at'] = rng.randint(1, 6)
                else:
                    f['n'] = rng.randint(1, 4)
                faults.append(f)
            op['faults'] = faults
            from .p01 import gen_sched
            op['sched'] = gen_sched(rng, rng.choice([15, 40])) \
                if op['multi'] else []
            ops.append(op)
        return dict(init=init, ops=ops, n_states=rng.choice([1, 2, 2, 3, 4]),
            ncpu=rng.choice([1, 2, 2, 3]), cap=rng.choice([4096, 65536]),
            multi0=int(rng.random() < .7))

    def shrink(self, plan):
        for p in world.shrink_plan(plan):
            yield p
        if plan['n_states'] > 1:
            yield dict(plan, n_states=plan['n_states'] - 1)
        if plan['ncpu'] > 1:
            yield dict(plan, ncpu=plan['ncpu'] - 1)
        for i, op in enumerate(plan['ops']):
            def sub(**k):
                ops = list(plan['ops'])
                ops[i] = dict(op, **k)
                return dict(plan, ops=ops)
            if op['sched']:
                yield sub(sched=[])
            if op['faults']:
                yield sub(faults=[])
            if op['multi']:
                yield sub(multi=0, sched=[], faults=[])

    def nontrivial(self, plan, ctx):
        return ctx.probes.get('multi', 0) >= 2

    # -- execution ---------------------------------------------------------

    def execute(self, plan, ctx):
        eng = self.build(plan, ctx)
        self.plan, self.ctx = plan, ctx
        self.foreign = 0
        for op in plan['ops']:
            try:
                eng = self.one(eng, op) or eng
            except Stop:
                break
            except world.Skip:
                ctx.log('skip', op['op'])
                continue
            for s in eng.states:
                ctx.state(world.fingerprint(s))

    def build(self, plan, ctx):
        from cgpm.crosscat.engine import Engine
        init = plan['init']
        data = [world.data_of(c) for c in init['cols']]
        X = np.asarray(data, dtype=float).T
        outputs = [c['id'] for c in init['cols']]
        kw = dict(outputs=outputs, cctypes=[c['cctype'] for c in init['cols']],
            distargs=[c['distargs'] for c in init['cols']])
        if init.get('Zv') is not None:
            kw['Zv'] = dict(zip(outputs, init['Zv']))
        if init.get('alpha') is not None:
            kw['alpha'] = init['alpha']
        engs = []
        for multi in (1, 0):
            with simproc.Simulation(ncpu=plan['ncpu'], cap=plan['cap'],
                    sched=[], ctx=ctx) as sim:
                engs.append(Engine(X.copy(), num_states=plan['n_states'],
                    rng=np.random.RandomState(init['seed']),
                    multiprocess=multi, **copy.deepcopy(kw)))
        a, b = engs
        for i in range(plan['n_states']):
            d = core.differ(snap(a.states[i], True), snap(b.states[i], True),
                0., 0.)
            ctx.check(d is None, 'construction', lambda: 'state %d built by '
                'workers differs from one built in place: %s' % (i, d))
        self.distinct(ctx, a.states, 'construction')
        return a

    def distinct(self, ctx, states, what):
        """States of an ensemble explore independently."""
        seen = [world.rng_digest(s.rng) for s in states]
        ctx.check(len(set(seen)) == len(seen), 'same-random-stream',
            lambda: 'after %s two states share one random stream' % (what,))

    def select(self, eng, op):
        n = eng.num_states()
        k = op['statenos']
        if k is None or op['op'] in NO_STATENOS:
            return None
        if k == 'none':
            return []
        sel = [i for i in range(n) if (op['r'][0] >> i) & 1]
        random.Random(op['r'][1]).shuffle(sel)
        return tuple(sel) if k == 'tuple' else sel

    def columns(self, st):
        return list(st.outputs)

    def value(self, st, c, u):
        d = st.dim_for(c)
        return world.cell(d.name(), d.distargs, u)

    def kwargs(self, eng, op):
        """Keyword arguments of the State method, valid for the table at hand
        (not necessarily for every state)."""
        st = eng.states[0]
        kind, r, u = op['op'], op['r'], op['u']
        cols = self.columns(st)
        n = st.n_rows()
        def obs(k):
            o = {}
            for j, c in enumerate(cols):
                x = u[(j + k) % len(u)]
                if x is not None:
                    o[c] = self.value(st, c, x)
            return o
        if kind == 'transition':
            kw = dict(N=op['N'], kernels=list(op['kernels']),
                progress=op['progress'], checkpoint=op['ckpt'])
            if any(d.is_conditional() for s in eng.states for d in s.dims()):
                if 'columns' in kw['kernels']:
                    raise world.Skip()
            if op['sub'] == 'cols':
                kw['cols'] = [cols[r[0] % len(cols)]]
            if op['sub'] == 'rows':
                kw['rowids'] = [r[0] % n]
            if op['sub'] == 'views' and 'columns' not in kw['kernels']:
                kw['views'] = [sorted(st.views)[r[0] % len(st.views)]]
            if op['bad']:
                kw['cols'] = [991]
            return kw
        if kind == 'transition_foreign':
            if not st.hooked_cgpms:
                raise world.Skip()
            own = [c.outputs[0] for c in st.hooked_cgpms.values()]
            kw = dict(N=1 + r[1] % 2, progress=False)
            if r[0] % 3:
                kw['cols'] = [own[r[2] % len(own)]] if not op['bad'] \
                    else [cols[0]]
            return kw
        if kind == 'transition_lovecat':
            return dict(N=[None, 1, 3][r[0] % 3], S=[None, 2, 5][r[1] % 3],
                kernels=[None, ('row_partition_assignments',)][r[2] % 2],
                rowids=[None, [r[3] % n], list(range(n))][r[3] % 3],
                cols=[None, [cols[r[4] % len(cols)]], cols][r[4] % 3],
                checkpoint=[None, None, 2][r[5] % 3], progress=False)
        if kind == 'incorporate':
            o = obs(0)
            if op['z'] is not None:
                # Names a cluster in the block whose first column is this one,
                # which only some states may have.
                v = st.views[sorted(st.views)[0]]
                o[v.outputs[0]] = sorted(v.Nk())[op['z'] % len(v.Nk())]
            return dict(rowid=n if not op['bad'] else n + 3, observation=o)
        if kind == 'incorporate_bulk':
            rows = [n, n + 1] if not op['bad'] else [n, n + 5]
            return dict(rowids=rows, observations=[obs(0), obs(1)])
        if kind == 'unincorporate':
            if n <= 2:
                raise world.Skip()
            return dict(rowid=n - 1 if not op['bad'] else 0)
        if kind in ('force_cell', 'force_cell_bulk'):
            cells = [(i, c) for i in range(n) for c in cols
                if world.isnan(st.X[c][i])]
            if not cells:
                raise world.Skip()
            i, c = cells[r[0] % len(cells)]
            o = {c: self.value(st, c, u[0] or .4)}
            if op['bad']:
                o = {cols[0]: 1., 991: 2.}
            if kind == 'force_cell':
                return dict(rowid=i, observation=o)
            rows, qs = [i], [o]
            j, d = cells[r[1] % len(cells)]
            if (j, d) != (i, c):
                rows.append(j)
                qs.append({d: self.value(st, d, u[1] or .6)})
            return dict(rowids=rows, queries=qs)
        if kind == 'incorporate_dim':
            if len(cols) >= 5 or any(d.is_conditional()
                    for s in eng.states for d in s.dims()):
                raise world.Skip()
            t, da = op['cctype'], op['distargs']
            T = [world.cell(t, da, u[i % len(u)]) for i in range(n)]
            T[0], T[1] = world.cell(t, da, .2), world.cell(t, da, .7)
            kw = dict(T=T, outputs=[40 + r[0] % 20], cctype=t, distargs=da)
            if kw['outputs'][0] in cols or st.hooked_cgpms:
                raise world.Skip()
            if op['v'] is not None:
                kw['v'] = sorted(st.views)[op['v'] % len(st.views)]
            if op['bad']:
                kw['T'] = T[:-1]
            return kw
        if kind == 'unincorporate_dim':
            c = cols[r[0] % len(cols)]
            return dict(col=c if not op['bad'] else 991)
        if kind == 'update_cctype':
            c = cols[r[0] % len(cols)]
            t, da = op['cctype'], op['distargs']
            if not world.fits(t, da, st.X[c]) and not op['bad']:
                raise world.Skip()
            if t == 'vonmises' and len(set(x for x in st.X[c]
                    if not world.isnan(x))) < 2:
                raise world.Skip()
            return dict(col=c, cctype=t, distargs=da)
        if kind == 'alter':
            if 'unpicklable' in op['funcs'] and not op['multi']:
                raise world.Skip()
            if 'exit' in op['funcs'] and not op['multi']:
                raise world.Skip()
            return dict(funcs=[ALTER[f] for f in op['funcs']])
        if kind in ('logpdf', 'simulate'):
            return self.query(st, op, 0, kind)
        if kind in ('logpdf_bulk', 'simulate_bulk'):
            qs = [self.query(st, op, k, kind[:-5]) for k in range(
                1 + r[5] % 5)]
            kw = dict(rowids=[q['rowid'] for q in qs],
                targets_list=[q['targets'] for q in qs],
                constraints_list=[q['constraints'] for q in qs],
                inputs_list=[None for q in qs])
            if kind == 'simulate_bulk':
                kw['Ns'] = [q['N'] or 1 for q in qs]
            return kw
        if kind in ('logpdf_score', 'logpdf_likelihood'):
            return {}
        if kind == 'dependence_probability':
            return dict(col0=cols[r[0] % len(cols)],
                col1=cols[r[1] % len(cols)])
        if kind == 'dependence_probability_pairwise':
            return dict(colnos=None if r[0] % 2 else cols[:2])
        if kind == 'row_similarity':
            return dict(row0=r[0] % n, row1=r[1] % n,
                cols=None if r[2] % 2 else [cols[r[3] % len(cols)]])
        if kind == 'row_similarity_pairwise':
            return dict(cols=None if r[2] % 2 else [cols[r[3] % len(cols)]])
        if kind == 'relevance_probability':
            return dict(rowid_target=r[0] % n,
                rowid_query=[r[1] % n, r[2] % n], col=cols[r[3] % len(cols)],
                hypotheticals=[obs(0)] if r[4] % 2 else None)
        if kind == 'mutual_information':
            if len(cols) < 2:
                raise world.Skip()
            a, b = cols[0], cols[1 + r[0] % (len(cols) - 1)]
            kw = dict(col0=[a], col1=[b], T=3, N=2, progress=False)
            rest = [c for c in cols if c not in (a, b)]
            if rest and r[1] % 2:
                c = rest[0]
                kw['constraints'] = {c: None if r[2] % 2
                    else self.value(st, c, u[0] or .3)}
            return kw
        raise KeyError(kind)

    def query(self, st, op, k, kind):
        cols = self.columns(st)
        r = op['r']
        # Queries of a bulk that differ in their values only.
        u = [x and (x + .37 * k) % 1. for x in op['u']]
        size = 1 + (r[4] + k * (r[4] // 4)) % 3
        if r[5] // 5 % 2:
            k, size = 0, 1 + r[4] % 2
        extra = [c.outputs[0] for c in st.hooked_cgpms.values()]
        row = None
        if op.get('row') is not None:
            row = op['row'] % st.n_rows()
            free = [c for c in cols if world.isnan(st.X[c][row])]
            if not free:
                row = None
        pool = (cols if row is None else free) + extra
        tgt = list(dict.fromkeys(pool[(r[i] + k) % len(pool)]
            for i in range(size)))
        rest = [c for c in pool if c not in tgt]
        ev = {}
        if rest and r[3] % 3:
            c = rest[r[2] % len(rest)]
            ev[c] = self.value(st, c, u[1] or .5) if c in cols else .5
        kw = dict(rowid=-1 if row is None else row, constraints=ev,
            inputs=None, accuracy=op['acc'])
        if kind == 'logpdf':
            kw['targets'] = {c: self.value(st, c, u[0] or .3)
                if c in cols else .25 for c in tgt}
        else:
            kw['targets'] = tgt
            kw['N'] = op['N']
        if op['bad']:
            kw['constraints'] = dict.fromkeys(tgt, 1.)
        return kw

    def script(self):
        """The external engine turns the row partitions by an amount which
        depends on what it was asked."""
        from .. import backends
        def result(call):
            asked = repr([call[k] and list(call[k]) for k in
                ('kernel_list', 'c', 'r')] + [call[k] for k in
                ('n_steps', 'max_time', 'diagnostics_every_N')])
            turn = sum(map(ord, asked)) * 7 + len(asked)
            X_D = [x[turn % len(x):] + x[:turn % len(x)] for x in call['X_D']]
            if call['do_diagnostics']:
                return call['X_L'], X_D, {}
            return call['X_L'], X_D
        backends.CROSSCAT.reset(result)

    def run(self, f, op):
        """f() under the simulated workers of the op."""
        plan = self.plan
        self.script()
        err = res = None
        with simproc.Simulation(sched=op['sched'], ncpu=plan['ncpu'],
                cap=plan['cap'], faults=[dict(x) for x in op['faults']],
                ctx=self.ctx, max_steps=60000) as sim:
            try:
                res = f()
            except (simproc.Deadlock, simproc.StepLimit):
                pass
            except KeyboardInterrupt as e:
                err = e
            except Exception as e:
                err = e
            self.ctx.check(sim.deadlocked is None and not sim.limit, 'hang',
                lambda: '%s hangs %r' % (op['op'], sim.deadlocked))
            self.ctx.check(not any(p.alive for p in sim.workers()),
                'worker-left', lambda: '%s left a worker running' % op['op'])
            return res, err, [x for x in sim.fired if x['kind'] != 'stall']

    def one(self, eng, op):
        ctx, kind = self.ctx, op['op']
        if kind in OTHER:
            return getattr(self, 'do_' + kind)(eng, op)
        if not eng.states:
            raise world.Skip()
        if len(set(tuple(s.outputs) for s in eng.states)) != 1:
            raise core.Violation('ensemble-tables', 'states of one ensemble '
                'have different columns')
        sel = self.select(eng, op)
        kw = self.kwargs(eng, op)
        n = eng.num_states()
        chosen = list(range(n)) if sel is None else list(sel)
        for i, s in enumerate(eng.states):
            s.rng.seed((op['s'] + 7919 * i) % 2**32)
        before = [snap(s, True) for s in eng.states]
        seeded = kind in SEEDED
        rngs = {}
        if seeded:
            # What the ensemble reseeds its states with: watch a copy of it.
            e2 = copy.deepcopy(eng)
            for i in chosen:
                self.watch(e2.states[i], kind, rngs, i)
            try:
                getattr(e2, kind)(statenos=list(chosen) or None,
                    multiprocess=0, **copy.deepcopy(kw))
            except Exception:
                pass
        refs = {i: copy.deepcopy(eng.states[i]) for i in chosen}
        want, ref_err = [], None
        for i in chosen:
            if seeded and i in rngs:
                refs[i].rng.set_state(rngs[i])
            k2 = copy.deepcopy(kw)
            self.script()
            try:
                if kind == 'alter':
                    x = refs[i]
                    for f in k2['funcs']:
                        x = f(x)
                    if op['multi']:
                        pickle.dumps(x, 2)
                    refs[i] = x
                elif kind == 'logpdf_bulk':
                    # Each query on its own.
                    want.append([refs[i].logpdf(*q)
                        for q in zip(k2['rowids'], k2['targets_list'],
                            k2['constraints_list'], k2['inputs_list'])])
                else:
                    want.append(getattr(refs[i], kind)(**k2))
            except (Exception, SystemExit) as e:
                ref_err = e
                break
        args = copy.deepcopy(kw)
        if kind not in NO_STATENOS:
            args['statenos'] = sel
        if kind == 'logpdf_bulk' and not args.get('inputs_list'):
            args.pop('inputs_list')
        res, err, fired = self.run(
            lambda: getattr(eng, kind)(multiprocess=op['multi'], **args), op)
        ctx.ops += 1
        ctx.log(kind, op['multi'], chosen, core_repr(res),
            type(err).__name__, type(ref_err).__name__)
        ctx.probe('op-' + kind)
        if op['multi'] and not err:
            ctx.probe('multi')
        what = '%s of states %r (%s)' % (kind, sel,
            'workers' if op['multi'] else 'in place')
        ctx.check(eng.num_states() == n, 'ensemble-size', lambda:
            '%s changed the number of states' % what)
        modify = kind in MODIFY
        if err is not None:
            ctx.check(ref_err is not None or fired, 'spurious-error',
                lambda: '%s raised %s: %.600s; applying it to the states one '
                'by one does not' % (what, type(err).__name__, err))
            if op['multi']:
                ctx.probe('failed-operation')
                self.unchanged(eng, before, range(n), seeded,
                    'a failed ' + what)
            if not op['multi']:
                # In place: stop here, the states before the failing one have
                # moved on, which the property does not forbid.
                raise Stop()
            return
        ctx.check(ref_err is None, 'error-lost', lambda: '%s did not raise, '
            'although applying it to the states one by one raises %s: %s' % (
                what, type(ref_err).__name__, ref_err))
        self.unchanged(eng, before, [i for i in range(n) if i not in chosen],
            seeded, what)
        if modify:
            for i in chosen:
                d = core.differ(snap(eng.states[i], True),
                    snap(refs[i], True), 1e-9, 1e-12)
                ctx.check(d is None, 'state-differs', lambda: 'after %s state '
                    '%d differs from one it was applied to directly: %s' % (
                        what, i, d))
        else:
            d = core.differ(world.plain(res), world.plain(want), 1e-9, 1e-12)
            ctx.check(d is None, 'result-differs', lambda: '%s differs from '
                'asking the states one by one: %s' % (what, d))
            self.unchanged(eng, before, chosen, True, what, 1e-7)
            if seeded:
                ctx.check(len(set(repr(world.plain(x)) for x in
                    rngs.values())) == len(rngs), 'same-random-stream',
                    lambda: '%s drew from the same random stream in two '
                    'states' % what)

    def watch(self, state, kind, rngs, i):
        f = getattr(state, kind)
        def watched(*a, **k):
            if i not in rngs:
                rngs[i] = state.rng.get_state()
            return f(*a, **k)
        setattr(state, kind, watched)

    def unchanged(self, eng, before, which, seeded, what, tol=0.):
        for i in which:
            now = snap(eng.states[i], True)
            b = dict(before[i])
            if seeded:
                now.pop('rng')
                b.pop('rng')
            d = core.differ(now, b, tol, tol)
            self.ctx.check(d is None, 'state-changed', lambda: '%s changed '
                'state %d: %s' % (what, i, d))

    # -- operations on the ensemble itself ---------------------------------

    def do_add_state(self, eng, op):
        ctx = self.ctx
        if not eng.states or eng.num_states() > 5:
            raise world.Skip()
        before = [snap(s, True) for s in eng.states]
        n, count = eng.num_states(), 1 + op['r'][0] % 2
        kw = {}
        if op['r'][1] % 3 == 0:
            kw['alpha'] = 1.25
        if op['bad']:
            kw['cctypes'] = ['normal'] * len(eng.states[0].outputs)
        composite = eng.states[0].is_composite()
        res, err, fired = self.run(lambda: eng.add_state(count=count,
            multiprocess=op['multi'], **kw), op)
        ctx.ops += 1
        ctx.log('add_state', count, type(err).__name__)
        ctx.probe('op-add_state')
        if err is not None:
            ctx.check(fired or composite or op['bad'], 'spurious-error',
                lambda: 'add_state raised %s: %.500s' % (
                    type(err).__name__, err))
            ctx.check(eng.num_states() == n, 'ensemble-size', 'a failed '
                'add_state changed the number of states')
            self.unchanged(eng, before, range(n), False, 'a failed add_state')
            return
        ctx.check(not composite and not op['bad'], 'error-lost',
            'add_state was to be rejected')
        ctx.check(eng.num_states() == n + count, 'ensemble-size', lambda:
            'add_state(%d) made %d states of %d' % (
                count, eng.num_states(), n))
        self.unchanged(eng, before, range(n), False, 'add_state')
        old = eng.states[0]
        for s in eng.states[n:]:
            d = core.differ({c: list(s.X[c]) for c in s.X},
                {c: list(old.X[c]) for c in old.X}, 0., 0.)
            ctx.check(d is None and list(s.outputs) == list(old.outputs),
                'added-state', lambda: 'an added state has another table: %s'
                % d)
            ctx.check(s.cctypes() == old.cctypes()
                and core.differ(s.distargs(), old.distargs()) is None,
                'added-state', lambda: 'an added state has types %r, not %r'
                % (s.cctypes(), old.cctypes()))
            if 'alpha' in kw:
                ctx.check(s.alpha() == 1.25, 'added-state', 'the option '
                    'alpha of add_state was lost')
            for t in eng.states[:n]:
                ctx.check(not any(s.X[c] is t.X[c] for c in s.X),
                    'added-state', 'an added state shares table storage')
        self.distinct(ctx, eng.states[n:], 'add_state')

    def do_drop_state(self, eng, op):
        n = eng.num_states()
        if n < 2:
            raise world.Skip()
        i = op['r'][0] % n
        keep = [snap(s, True) for j, s in enumerate(eng.states) if j != i]
        eng.drop_state(i)
        self.ctx.ops += 1
        self.ctx.log('drop_state', i)
        self.ctx.check(eng.num_states() == n - 1, 'ensemble-size',
            'drop_state did not drop one state')
        self.unchanged(eng, keep, range(n - 1), False, 'drop_state')
        for j in range(n - 1):
            self.ctx.check(eng.get_state(j) is eng.states[j], 'get-state',
                'get_state returned another state')

    def do_compose(self, eng, op):
        ctx = self.ctx
        if not eng.states:
            raise world.Skip()
        st = eng.states[0]
        if len(st.hooked_cgpms) >= 2 or any(s.is_composite()
                and not s.hooked_cgpms for s in eng.states):
            raise world.Skip()
        out = 70 + self.foreign
        self.foreign += 1
        cols = self.columns(st)
        ins = sorted(set(cols[i % len(cols)] for i in op['r'][:2]))
        if op['bad']:
            out = cols[0]
            ins = ins[-1:]
        cg = [Offset(out, ins, float(i + 1), np.random.RandomState(i))
            for i in range(eng.num_states())]
        before = [snap(s, True) for s in eng.states]
        refs = copy.deepcopy(eng.states)
        ref_err = None
        for s, c in zip(refs, cg):
            try:
                s.compose_cgpm(Offset(out, ins, c.shift, s.rng))
            except Exception as e:
                ref_err = e
                break
        res, err, fired = self.run(lambda: eng.compose_cgpm(cg,
            multiprocess=op['multi']), op)
        ctx.ops += 1
        ctx.log('compose', type(err).__name__)
        ctx.probe('op-compose')
        if err is not None:
            ctx.check(ref_err is not None or fired, 'spurious-error',
                lambda: 'compose_cgpm raised %s: %.500s' % (
                    type(err).__name__, err))
            if op['multi']:
                self.unchanged(eng, before, range(len(before)), False,
                    'a failed compose_cgpm')
            else:
                raise Stop()
            return
        ctx.check(ref_err is None, 'error-lost', 'compose_cgpm was to be '
            'rejected')
        for i, (s, r) in enumerate(zip(eng.states, refs)):
            d = core.differ(snap(s, True), snap(r, True), 0., 0.)
            ctx.check(d is None, 'state-differs', lambda: 'compose_cgpm gave '
                'state %d %s' % (i, d))
            for c in s.hooked_cgpms.values():
                ctx.check(c.rng is s.rng, 'component-rng', 'a composed '
                    'component draws from another random stream')

    def do_restore(self, eng, op):
        from cgpm.crosscat.engine import Engine
        ctx = self.ctx
        if not eng.states:
            raise world.Skip()
        n = eng.num_states()
        m = eng.to_metadata()
        before = [snap(s, True) for s in eng.states]
        res, err, fired = self.run(lambda: Engine.from_metadata(m,
            rng=np.random.RandomState(op['s']), multiprocess=op['multi']), op)
        ctx.ops += 1
        ctx.log('restore', type(err).__name__)
        ctx.probe('op-restore')
        self.unchanged(eng, before, range(n), False, 'a restore')
        if err is not None:
            ctx.check(fired, 'spurious-error', lambda: 'from_metadata raised '
                '%s: %.500s' % (type(err).__name__, err))
            return
        ctx.check(res.num_states() == n, 'ensemble-size', 'a restored '
            'ensemble has another number of states')
        for i in range(n):
            a, b = snap(res.states[i], False), dict(before[i])
            b.pop('rng')
            for x in (a, b):
                for v in x['views'].values():
                    # The clusters of uncollapsed columns redraw parameters.
                    for d in v['dims'].values():
                        d.pop('clusters')
            d = core.differ(a, b, 1e-9, 1e-12)
            ctx.check(d is None, 'state-differs', lambda: 'restored state %d '
                'differs: %s' % (i, d))
        self.distinct(ctx, res.states, 'restore')
        return res


PROP = P02()
