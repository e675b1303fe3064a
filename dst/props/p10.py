"""P10: saving and restoring reproduces the model; a torn save never loads.

The simulated client saves at random points of a random history (metadata,
JSON, pickle on a simulated disk that fills up, fails or loses the tail of the
file), lets the original move on, and restores later.
"""

import copy
import io
import pickle
import random

import numpy as np

from .. import core, simfs, world
from . import p12
from .hist import HistoryProp, core_repr
from .p04 import check_partitions
from .p06 import scribble


class Shift(p12.Shift):
    """A composed component that can be saved."""

    def to_metadata(self):
        return dict(output=self.outputs[0], inputs=list(self.inputs),
            factory=('dst.props.p10', 'Shift'))

    @classmethod
    def from_metadata(cls, metadata, rng=None):
        return cls(metadata['output'], metadata['inputs'], rng)


class SWorld(world.World):

    def __init__(self, init, ctx, plan):
        world.World.__init__(self, init, ctx)
        self.disk = simfs.Disk()
        self.saves = []
        self.twins = []
        self.foreign = {}       # token -> (output, inputs)
        self.n_foreign = 0
        self.Cd = [list(b) for b in init.get('Cd') or []]
        self.Ci = [list(b) for b in init.get('Ci') or []]

    def used(self):
        return set(i for _o, ins in self.foreign.values() for i in ins)

    def op_uninc_dim(self, op):
        cols = [c for c in self.cols() if c not in self.used()
            and c not in self.used_inputs() and not any(
                c in b for b in self.Cd + self.Ci)]
        if len(self.cols()) < 2:
            raise world.Skip()
        col = self.pick(cols, op['col'])
        self.state.unincorporate_dim(col)
        del self.table[col], self.types[col]
        return col

    def op_compose(self, op):
        if len(self.foreign) >= 3:
            raise world.Skip()
        cols = self.cols()
        pool = cols + [o for o, _i in self.foreign.values()]
        out = 50 + self.n_foreign
        self.n_foreign += 1
        inputs = sorted(set(pool[i % len(pool)] for i in op['t']))
        tok = self.state.compose_cgpm(Shift(out, inputs, self.state.rng))
        self.ctx.check(tok not in self.foreign, 'token-reused',
            lambda: 'compose_cgpm returned the token %r of another live '
            'component' % (tok,))
        self.foreign[tok] = (out, inputs)
        return tok

    def op_decompose(self, op):
        toks = [t for t in sorted(self.foreign) if not any(
            self.foreign[t][0] in ins for _o, ins in self.foreign.values())]
        if not toks:
            raise world.Skip()
        t = toks[op['i'] % len(toks)]
        self.state.decompose_cgpm(t)
        del self.foreign[t]
        return t

    # -- observation ----------------------------------------------------
    def observe(self, st=None):
        st = self.state if st is None else st
        s = world.snapshot(st)
        s.pop('hooked')
        unc = [c for c in st.outputs if not st.dim_for(c).is_collapsed()]
        for v in s['views'].values():
            for c, d in v['dims'].items():
                if c in unc:
                    # Parameters and models of uncollapsed components are
                    # inferred anew.
                    for k in d['clusters'].values():
                        k.pop('params', None)
                        k.pop('suff', None)
        out = dict(snap=s)
        out['hooked'] = {int(t): [list(c.outputs), list(c.inputs)]
            for t, c in st.hooked_cgpms.items()}
        out['loom'] = world.plain(st._loom_path)
        out['scores'] = {c: st.dim_for(c).logpdf_score()
            for c in st.outputs if c not in unc}
        out['row-crp'] = {v: st.views[v].logpdf_prior() for v in st.views}
        out['grid'] = {c: sorted(st.dim_for(c).hyper_grids)
            for c in st.outputs}
        if not st.Ci:
            out['crp'] = st.logpdf_score_crp()
        pure = [c for c in st.outputs if c not in unc
            and self.types[c][0] not in world.CONDITIONAL]
        out['pred'] = {c: st.logpdf(-1, {c: world.cell(self.types[c][0],
            self.types[c][1], .37)}) for c in pure} \
            if not st.is_composite() else {}
        if len(pure) > 1 and not st.is_composite():
            t = {c: world.cell(self.types[c][0], self.types[c][1], .61)
                for c in pure}
            out['joint'] = st.logpdf(-1, t)
        if st.hooked_cgpms:
            out['foreign'] = {}
            for t, c in st.hooked_cgpms.items():
                o = c.outputs[0]
                out['foreign'][o] = c.logpdf(None, {o: .5}, None,
                    {i: .25 for i in c.inputs})
        return copy.deepcopy(out)

    # -- saving ---------------------------------------------------------
    def op_save(self, op):
        how = op['how']
        if len(self.saves) >= 4:
            self.saves.pop(0)
        rec = dict(how=how, table=copy.deepcopy(self.table),
            types=dict(self.types), foreign=dict(self.foreign))
        before = world.snapshot(self.state, rng=True)
        if how in ('metadata', 'json'):
            m = self.state.to_metadata()
            if how == 'json':
                m = world.json_trip(m)
            rec['m'], rec['frozen'] = m, copy.deepcopy(m)
        else:
            path = 'save-%d' % len(self.saves)
            d = self.disk
            d.writes, d.budget, d.fail_write = 0, None, None
            fault = op.get('fault')
            if fault:
                full = self.full_size()
                if fault == 'disk-full':
                    d.budget = op['at'] * full // 1000
                elif fault == 'write-error':
                    d.fail_write = 1
                self.ctx.fault(fault)
            f = d.open(path, 'w')
            try:
                self.state.to_pickle(f)
                failed = None
            except IOError as e:
                failed = e
            d.budget = d.fail_write = None
            self.ctx.check(core.differ(world.snapshot(self.state, rng=True),
                before, 0., 0.) is None, 'save-changed',
                'saving%s changed the live model' % (
                    ' and failing' if failed else '',))
            if fault:
                self.ctx.check(failed is not None, 'silent-failure',
                    'a save that hit a disk error did not raise')
                self.must_not_load(path, d.files[path], fault)
                return 'failed'
            if failed is not None:
                raise failed
            rec['path'] = path
            rec['bytes'] = d.files[path]
            for cut in op.get('cuts', []):
                # A crash during the save: only a prefix became durable.
                n = cut * len(d.files[path]) // 1000
                self.ctx.fault('torn-file')
                self.must_not_load(path, d.files[path][:n], 'truncated')
        self.ctx.check(core.differ(world.snapshot(self.state, rng=True),
            before, 0., 0.) is None, 'save-changed',
            'saving changed the live model')
        rec['obs'] = self.observe()
        self.saves.append(rec)
        return how

    def full_size(self):
        f = io.BytesIO()
        self.state.to_pickle(f)
        return len(f.getvalue())

    def must_not_load(self, path, data, why):
        from cgpm.crosscat.state import State
        self.disk.files['torn'] = data
        for src in ('torn', io.BytesIO(data)):
            try:
                st = State.from_pickle(src, rng=np.random.RandomState(1))
            except Exception:
                continue
            raise core.Violation('torn-loads', 'a %s file of %d bytes loads '
                'as a model' % (why, len(data)))

    def load(self, rec, seed):
        from cgpm.crosscat.state import State
        rng = np.random.RandomState(seed)
        if 'm' in rec:
            st = State.from_metadata(rec['m'], rng=rng)
            self.draws_from(st, rng)
            d = core.differ(world.plain(rec['m']),
                world.plain(rec['frozen']), 0., 0.)
            self.ctx.check(d is None, 'metadata-modified',
                lambda: 'from_metadata changed the saved metadata: %s' % d)
            return st
        self.disk.files[rec['path']] = rec['bytes']
        src = rec['path'] if seed % 2 else io.BytesIO(rec['bytes'])
        st = State.from_pickle(src, rng=rng)
        self.draws_from(st, rng)
        return st

    def draws_from(self, st, rng):
        """A restored model draws from the generator given to restore it."""
        was, other = rng.get_state(), st.rng.get_state()
        try:
            st.simulate(-1, [st.outputs[0]], N=3)
        except Exception as e:
            if not world.numeric(e):
                raise
            return
        now = rng.get_state()
        st.rng.set_state(other)
        rng.set_state(was)
        self.ctx.check(core.differ(world.plain(now), world.plain(was), 0., 0.)
            is not None, 'generator', 'a model restored with a random '
            'generator draws from another one')
        self.ctx.probe('generator')

    def op_load(self, op):
        """Restore an old save; continue with it, or keep it on the side."""
        from cgpm.crosscat.state import State
        if not self.saves:
            raise world.Skip()
        rec = self.saves[op['i'] % len(self.saves)]
        live = world.snapshot(self.state, rng=True)
        st = self.load(rec, op['s'])
        types = self.types
        self.types = rec['types']
        try:
            d = core.differ(self.observe(st), rec['obs'], 1e-7, 1e-7)
        finally:
            self.types = types
        self.ctx.check(d is None, 'restore-differs', lambda: 'restored from '
            '%s: %s' % (rec['how'], d))
        self.ctx.check(core.differ(world.snapshot(self.state, rng=True),
            live, 0., 0.) is None, 'load-changed',
            'restoring changed another live model')
        if 'm' in rec and op['s'] % 3 == 0:
            # The client uses its metadata for something else.
            self.ctx.fault('client-scribbles')
            given = copy.deepcopy(rec['frozen'])
            x = State.from_metadata(given, rng=np.random.RandomState(3))
            was = world.snapshot(x, rng=True)
            scribble(given)
            scribble(x.to_metadata())
            d = core.differ(world.snapshot(x, rng=True), was, 0., 0.)
            self.ctx.check(d is None, 'metadata-shared', lambda: 'a change '
                'to the metadata reached the model: %s' % (d,))
        again = self.load(rec, op['s'])
        d = core.differ(world.snapshot(again, rng=True),
            world.snapshot(st, rng=True), 0., 0.)
        self.ctx.check(d is None, 'load-not-repeatable',
            lambda: 'two restores with one seed differ: %s' % d)
        if op['switch']:
            self.state = st
            self.table = copy.deepcopy(rec['table'])
            self.types = dict(rec['types'])
            self.foreign = dict(rec['foreign'])
        else:
            # The restored model moves; the live one and the save do not.
            ks = ['alpha', 'view_alphas', 'column_params', 'column_hypers',
                'rows']
            st.transition(N=1, kernels=ks, progress=False,
                checkpoint=None if st.Ci else 1)
            st.incorporate(st.n_rows(), {})
            self.ctx.check(core.differ(world.snapshot(self.state, rng=True),
                live, 0., 0.) is None, 'restored-shares',
                'moving a restored model changed the live model')
        return rec['how']

    def op_engine(self, op):
        """An ensemble of this state and a copy of it, saved and restored."""
        from cgpm.crosscat import engine as eng_mod
        e = eng_mod.Engine(self.state.data_array(), num_states=0,
            multiprocess=0)
        e.states = [self.state, copy.deepcopy(self.state)]
        e.states[1].transition(N=1, kernels=['rows', 'alpha'],
            progress=False)
        obs = [self.observe(s) for s in e.states]
        m = e.to_metadata()
        if op['how'] == 'json':
            m = world.json_trip(m)
        frozen = copy.deepcopy(m)
        rng = np.random.RandomState(op['s'])
        if op['how'] == 'pickle':
            f = self.disk.open('engine', 'w')
            e.to_pickle(f)
            for cut in op.get('cuts', []):
                data = self.disk.files['engine']
                self.disk.files['torn'] = data[:cut * len(data) // 1000]
                self.ctx.fault('torn-file')
                try:
                    eng_mod.Engine.from_pickle('torn', rng=rng)
                except Exception:
                    continue
                raise core.Violation('torn-loads',
                    'a truncated ensemble file loads')
            r = eng_mod.Engine.from_pickle('engine', rng=rng)
        else:
            r = eng_mod.Engine.from_metadata(m, rng=rng, multiprocess=0)
        self.ctx.check(core.differ(world.plain(m), world.plain(frozen),
            0., 0.) is None, 'metadata-modified',
            'Engine.from_metadata changed the saved metadata')
        self.ctx.check(r.num_states() == 2, 'engine-states',
            'restored ensemble has %d states' % r.num_states())
        for i in range(2):
            d = core.differ(self.observe(r.states[i]), obs[i], 1e-7, 1e-7)
            self.ctx.check(d is None, 'restore-differs', lambda: 'state %d '
                'of an ensemble restored from %s: %s' % (i, op['how'], d))
        self.ctx.check(r.states[0].X is not r.states[1].X, 'shared-table',
            'restored states share their table')
        return op['how']


class P10(HistoryProp):
    id = 'P10'
    runs = {'quick': 4000, 'thorough': 200000}
    wall = {'quick': 40., 'thorough': 780.}
    weights = dict(inc_row=2, uninc_row=1, inc_dim=2, uninc_dim=1, force=1,
        inc_rows=.3, forces=.3,
        cctype=3, kernel=4, transition=2, compose=1.5, decompose=.7, save=5,
        load=5, engine=1.5)
    stub = ['disk (in memory, with full-disk, write-error and torn-file '
        'faults)', 'worker processes (sequential mapper)',
        'one composed component']
    assumptions = ['parameters of uncollapsed components are not saved; they '
        'are inferred anew on restore', 'hyperparameter grids are recomputed '
        'from the data']

    def gen(self, rng, tier):
        init = self.gen_init(rng, tier)
        if rng.random() < .25:
            from . import p08
            init = world.gen_init(rng, self.types, cols=(2, 5), rows=(2, 5),
                zero_based=True)
            init.pop('Zv', None)
            init.pop('Zrv', None)
            init['Cd'], init['Ci'] = p08.gen_constraints(rng,
                len(init['cols']))
        missing = rng.choice([0., .2, .5])
        ops = []
        kinds = [k for k in self.weights if rng.random() < .85
            or k in ('save', 'load')]
        for _ in range(rng.randint(3, 14 if tier == 'quick' else 24)):
            k = rng.choices(kinds, [self.weights[x] for x in kinds])[0]
            if k in ('compose',):
                op = dict(op=k, s=rng.randint(1, 10**6), t=[rng.randrange(8)
                    for _ in range(rng.randint(1, 2))])
            elif k == 'decompose':
                op = dict(op=k, s=1, i=rng.randrange(6))
            elif k == 'save':
                op = dict(op=k, s=1, how=rng.choice(
                    ['metadata', 'metadata', 'json', 'pickle', 'pickle']))
                if op['how'] == 'pickle':
                    r = rng.random()
                    if r < .3:
                        op['fault'] = rng.choice(['disk-full', 'disk-full',
                            'write-error'])
                        op['at'] = rng.randrange(1000)
                    elif r < .7:
                        op['cuts'] = [rng.choice([0, 1, rng.randrange(1000),
                            999]) for _ in range(3)]
            elif k == 'load':
                op = dict(op=k, s=rng.randint(1, 10**6), i=rng.randrange(6),
                    switch=rng.random() < .5)
            elif k == 'engine':
                op = dict(op=k, s=rng.randint(1, 10**6),
                    how=rng.choice(['metadata', 'json', 'pickle']),
                    cuts=[rng.randrange(1000)])
            else:
                op = world.gen_op(rng, k, self.types, missing)
            ops.append(op)
        return dict(init=init, ops=ops)

    def make(self, plan, ctx):
        return SWorld(plan['init'], ctx, plan)

    def execute(self, plan, ctx):
        import cgpm.crosscat.engine as E
        import cgpm.crosscat.state as S
        w = self.make(plan, ctx)
        old = E.parallel_map
        E.parallel_map = lambda f, l, parallelism=None: [f(x) for x in l]
        E.open = S.open = w.disk.open
        try:
            for op in plan['ops']:
                if (w.Cd or w.Ci) and op['op'] == 'inc_dim':
                    continue
                try:
                    r = w.apply(op)
                except world.Skip:
                    continue
                ctx.ops += 1
                ctx.probe('op-' + op['op'] + ('-' + op['how']
                    if 'how' in op else ''))
                ctx.log(op['op'], core_repr(r))
                self.after(w, op, None)
                fp = world.fingerprint(w.state)
                ctx.state(fp)
                ctx.log(fp)
        finally:
            E.parallel_map = old
            del E.open, S.open

    def after(self, w, op, before, result=None):
        for rec in w.saves:
            if 'm' in rec:
                d = core.differ(world.plain(rec['m']),
                    world.plain(rec['frozen']), 0., 0.)
                w.ctx.check(d is None, 'snapshot-moved', lambda: '%s changed '
                    'metadata saved earlier: %s' % (op['op'], d))
        check_partitions(w)
        w.ctx.check(sorted(w.state.hooked_cgpms) == sorted(w.foreign),
            'tokens', lambda: 'components are held under %r, the client '
            'holds tokens %r' % (sorted(w.state.hooked_cgpms),
                sorted(w.foreign)))


PROP = P10()
