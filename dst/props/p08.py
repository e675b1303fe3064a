"""P08: declared dependence and independence constraints always hold."""

import copy
import itertools
import random

import numpy as np

from .. import backends, core, ref, world
from .hist import HistoryProp, core_repr
from .p04 import check_partitions

BAD_KINDS = ['single', 'range-d', 'range-i', 'negative', 'overlap',
    'contradict', 'triple', 'same', 'not-zero-based', 'Zv-violates', 'empty']


class CWorld(world.World):

    def __init__(self, init, ctx):
        world.World.__init__(self, init, ctx)
        self.Cd = [list(b) for b in init.get('Cd') or []]
        self.Ci = [list(b) for b in init.get('Ci') or []]

    def constrained(self):
        return set(c for b in self.Cd + self.Ci for c in b)

    def op_inc_dim(self, op):
        if len(self.cols()) >= op.get('max', 6):
            raise world.Skip()
        col = self.pick([i for i in range(31)
            if i not in self.state.outputs], op['id'])
        if self.conditional_dims() and op.get('v') is None:
            raise world.Skip()
        T = [world.cell(op['cctype'], op['distargs'],
            op['u'][i % len(op['u'])]) for i in range(self.n_rows())]
        T[0] = world.cell(op['cctype'], op['distargs'], .2)
        T[1] = world.cell(op['cctype'], op['distargs'], .7)
        v = op.get('v')
        if v is not None:
            V = sorted(self.state.views)
            v = (V + [V[-1] + 1])[v % (len(V) + 1)]
        try:
            self.state.incorporate_dim(list(T), [col], cctype=op['cctype'],
                distargs=copy.deepcopy(op['distargs']), v=v)
        except ValueError:
            self.ctx.check(v is None and bool(self.Cd), 'refused',
                'a column was refused which violates no constraint')
            self.ctx.fault('column-step-refused')
            return 'refused'
        self.table[col] = T
        self.types[col] = (op['cctype'], op['distargs'])
        return col

    def op_uninc_dim(self, op):
        if len(self.cols()) < 2:
            raise world.Skip()
        con = [c for c in self.cols() if c in self.constrained()]
        col = self.pick(con or self.cols(), op['col']) if op.get('con') \
            else self.pick(self.cols(), op['col'])
        if col in self.used_inputs():
            raise world.Skip()
        before = world.snapshot(self.state)
        try:
            self.state.unincorporate_dim(col)
        except ValueError as e:
            self.ctx.check(col in self.constrained(), 'refused',
                'removing an unconstrained column was refused: %s' % e)
            d = core.differ(world.snapshot(self.state), before, 0., 0.)
            self.ctx.check(d is None, 'changed', lambda: 'refused removal '
                'changed the model: %s' % d)
            self.ctx.fault('constrained-column-removal')
            return 'refused'
        # What remains declared about the remaining columns.
        self.Cd = [b for b in ([c for c in b if c != col] for b in self.Cd)
            if len(b) > 1]
        self.Ci = [b for b in self.Ci if col not in b]
        del self.table[col], self.types[col]
        return col

    def op_kernel(self, op):
        if op['kernel'] == 'columns' and self.Cd:
            return self.refused(lambda: self.state.transition_dims(),
                'columns kernel')
        return world.World.op_kernel(self, op)

    def op_transition(self, op):
        if 'columns' in op['kernels'] and self.Cd:
            op = dict(op, kernels=['columns'])
            return self.refused(lambda: self.state.transition(N=1,
                kernels=['columns'], progress=False), 'columns transition')
        return world.World.op_transition(self, op)

    def refused(self, f, what):
        """An inference step that cannot respect Cd raises; nothing moves."""
        Zv = dict(self.state.Zv())
        try:
            f()
        except ValueError:
            self.ctx.fault('column-step-refused')
            self.ctx.check(dict(self.state.Zv()) == Zv, 'moved',
                '%s raised and moved columns' % what)
            return 'refused'
        return 'accepted'

    def op_lovecat(self, op):
        st = self.state
        if any(self.types[c][0] not in ('normal', 'categorical')
                for c in self.cols()):
            raise world.Skip()
        rng = random.Random(op['s'])
        cols, n = self.cols(), self.n_rows()
        before = world.snapshot(st)
        violate = op['mode'] == 'violate'

        def result(call):
            Zv = self.partition(rng, cols, violate)
            k = max(Zv.values()) + 1
            Zr = {v: dense([rng.randrange(rng.randint(1, n))
                for _ in range(n)]) for v in range(k)}
            return backends.crosscat_structure(cols, Zv, Zr,
                1.5, [1.25] * k, call)
        if violate and self.partition(random.Random(1), cols, True) is None:
            raise world.Skip()
        backends.CROSSCAT.reset(result)
        if violate:
            self.ctx.fault('engine-violates-constraint')
            try:
                st.transition_lovecat(N=1, progress=False)
            except Exception as e:
                d = core.differ(world.snapshot(st), before, 0., 0.)
                self.ctx.check(d is None, 'changed', lambda: 'the engine '
                    'violated a constraint and the model changed: %s' % d)
                return 'refused'
            return 'accepted'
        st.transition_lovecat(N=1, progress=False)
        got = backends.CROSSCAT.calls[0]['X_L']['col_ensure']
        where = {c: i for i, c in enumerate(cols)}
        pos = lambda m: {int(c): set(int(x) for x in b if int(x) != int(c))
            for c, b in m.items()}
        dep = {where[c]: set(where[x] for x in b) - {where[c]}
            for b in self.Cd for c in b}
        ind = {}
        for a, b in ((where[a], where[b]) for a, b in self.Ci):
            ind.setdefault(a, set()).add(b)
            ind.setdefault(b, set()).add(a)
        self.ctx.check(pos(got.get('dependent', {})) == dep,
            'engine-constraints', lambda: 'engine was told %r are '
            'dependent, declared %r' % (got.get('dependent'), self.Cd))
        self.ctx.check(pos(got.get('independent', {})) == ind,
            'engine-constraints', lambda: 'engine was told %r are '
            'independent, declared %r' % (got.get('independent'), self.Ci))
        return sorted(st.Zv().items())

    def partition(self, rng, cols, violate):
        """A random partition that honours (or violates) the constraints."""
        if violate and not (self.Cd or self.Ci):
            return None
        for _ in range(200):
            k = rng.randint(1, len(cols))
            Z = dict(zip(cols, dense([rng.randrange(k) for _ in cols])))
            ok = self.ok(Z)
            if violate != ok:
                return Z
        Z = {}
        if violate:
            return None
        blocks = [set(b) for b in self.Cd]
        for c in cols:
            mine = [i for i, b in enumerate(blocks) if c in b]
            Z[c] = mine[0] if mine else 100 + cols.index(c)
        return dict(zip(cols, dense([Z[c] for c in cols])))

    def ok(self, Z):
        return all(Z[b[0]] == Z[c] for b in self.Cd for c in b) and all(
            Z[a] != Z[b] for a, b in self.Ci)

    def op_restore(self, op):
        import io
        from cgpm.crosscat.state import State
        if op.get('pickle'):
            import pickle
            f = io.BytesIO()
            self.state.to_pickle(f)
            f.seek(0)
            self.state = State.from_pickle(f,
                rng=np.random.RandomState(op['s']))
            return
        return world.World.op_restore(self, op)


def dense(z):
    m = {}
    return [m.setdefault(x, len(m)) for x in z]


def gen_constraints(rng, n):
    cols = list(range(n))
    rng.shuffle(cols)
    Cd, rest = [], list(cols)
    for _ in range(rng.choice([0, 1, 1, 2])):
        if len(rest) >= 2:
            k = rng.randint(2, min(3, len(rest)))
            Cd.append([rest.pop() for _ in range(k)])
    block = {c: i for i, b in enumerate(Cd) for c in b}
    pairs = [p for p in itertools.permutations(range(n), 2)
        if not (p[0] in block and block[p[0]] == block.get(p[1]))]
    Ci, seen = [], set()
    for _ in range(rng.choice([0, 1, 2, 3, 6])):
        if pairs:
            p = rng.choice(pairs)
            if frozenset(p) not in seen:
                seen.add(frozenset(p))
                Ci.append(list(p))
    return Cd, Ci


class P08(HistoryProp):
    id = 'P08'
    selfcheck = .12
    runs = {'quick': 4000, 'thorough': 200000}
    wall = {'quick': 30., 'thorough': 780.}
    weights = dict(inc_row=1, uninc_row=.5, inc_dim=1.5, uninc_dim=1.5,
        force=.5, inc_rows=.3, forces=.3, cctype=1, kernel=6, transition=3, restore=1.5, lovecat=2)
    stub = ['crosscat.LocalEngine (returns partitions scripted per run)']
    assumptions = ['the simulated external engine honours or violates what '
        'it was told, per script']

    def prepare(self):
        HistoryProp.prepare(self)
        backends.install_crosscat()
        import cgpm.crosscat.lovecat

    def gen(self, rng, tier):
        lov = rng.random() < .35
        types = ['normal', 'categorical'] if lov else world.PRIMITIVE
        init = world.gen_init(rng, types, cols=(2, 6), rows=(2, 5),
            zero_based=True)
        init.pop('Zv', None)
        init.pop('Zrv', None)
        n = len(init['cols'])
        Cd, Ci = gen_constraints(rng, n)
        init['Cd'], init['Ci'] = Cd, Ci
        if rng.random() < .3:
            blocks = [set(b) for b in Cd]
            for _ in range(20):
                k = rng.randint(1, n)
                Z = [rng.randrange(k) for _ in range(n)]
                for b in Cd:
                    for c in b:
                        Z[c] = Z[b[0]]
                if all(Z[a] != Z[b] for a, b in Ci):
                    init['Zv'] = Z
                    break
        plan = dict(init=init, bad=None, as_list=rng.random() < .3)
        if rng.random() < .3:
            plan['bad'] = dict(kind=rng.choice(BAD_KINDS),
                i=rng.randrange(50))
        ops = []
        kinds = [k for k in self.weights if rng.random() < .8] \
            or list(self.weights)
        for _ in range(rng.randint(1, 12)):
            k = rng.choices(kinds, [self.weights[x] for x in kinds])[0]
            if k == 'lovecat':
                if not lov:
                    continue
                op = dict(op='lovecat', s=rng.randint(1, 10**6),
                    mode=rng.choice(['honour', 'honour', 'violate']))
            else:
                op = world.gen_op(rng, k, types,
                    conditional=rng.random() < .3 and not lov)
            if k == 'uninc_dim':
                op['con'] = rng.random() < .5
            if k == 'restore':
                op['pickle'] = rng.random() < .3
            ops.append(op)
        plan['ops'] = ops
        return plan

    def make(self, plan, ctx):
        init = plan['init']
        if plan.get('bad'):
            self.construct_bad(plan, ctx)
        if plan.get('as_list'):
            init = dict(init, Ci_lists=True)
        return CWorld(init, ctx)

    def construct_bad(self, plan, ctx):
        """Contradictory or malformed constraints are rejected."""
        from cgpm.crosscat.state import State
        init = copy.deepcopy(plan['init'])
        kind, i = plan['bad']['kind'], plan['bad']['i']
        n = len(init['cols'])
        Cd, Ci = [list(b) for b in init['Cd']], [tuple(p) for p in init['Ci']]
        kw = {}
        a, b = i % n, (i // n + 1 + i) % n
        if a == b:
            b = (a + 1) % n
        if kind == 'single':
            used = set(c for x in Cd for c in x)
            free = [c for c in range(n) if c not in used]
            if not free:
                return
            Cd.append([free[i % len(free)]])
        elif kind == 'empty':
            Cd.append([])
        elif kind == 'range-d':
            Cd.append([n + i % 3, n + 7])
        elif kind == 'range-i':
            Ci.append((a, n + i % 3) if i % 2 else (n + i % 3, a))
        elif kind == 'negative':
            if i % 2:
                Ci.append((0, -1) if n > 1 else (0, -2))
            else:
                Cd = [[-1, 0]]
                Ci = []
        elif kind == 'overlap':
            Cd = [[a, b], [b, (b + 1) % n]]
            Ci = []
        elif kind == 'contradict':
            Cd, Ci = [[a, b]], [(a, b) if i % 2 else (b, a)]
        elif kind == 'triple':
            if n < 3:
                return
            Ci = [(0, 1, 2)]
            Cd = []
        elif kind == 'same':
            Ci.append((a, a))
        elif kind == 'not-zero-based':
            if not (Cd or Ci):
                return
            kw['outputs'] = [c + 3 for c in range(n)]
        elif kind == 'Zv-violates':
            if not (Cd or Ci):
                return
            if Ci and (i % 2 or not Cd):
                kw['Zv'] = {c: 0 for c in range(n)}
            else:
                kw['Zv'] = {c: c for c in range(n)}
        if 'Zv' not in kw and i % 3 == 0 and kind != 'not-zero-based' \
                and init.get('Zv') is not None:
            kw['Zv'] = dict(zip(range(n), init['Zv']))
        X = np.asarray([world.data_of(c) for c in init['cols']], float).T
        ctx.fault('malformed-' + kind)
        try:
            State(X, cctypes=[c['cctype'] for c in init['cols']],
                distargs=[c['distargs'] for c in init['cols']], Cd=Cd, Ci=Ci,
                rng=np.random.RandomState(init['seed']), **kw)
        except Exception as e:
            ctx.log('rejected', kind)
            return
        raise core.Violation('malformed-accepted', 'constraints accepted '
            '(%s): Cd=%r Ci=%r %r' % (kind, Cd, Ci, kw))

    def after(self, w, op, before, result=None):
        st, chk = w.state, w.ctx.check
        Zv = st.Zv()
        what = op['op'] if op else 'construction'
        for b in w.Cd:
            chk(len(set(Zv[c] for c in b)) == 1, 'dependence',
                lambda: 'after %s declared dependent %r are in blocks %r' % (
                    what, b, [Zv[c] for c in b]))
        for a, b in w.Ci:
            chk(Zv[a] != Zv[b], 'independence', lambda: 'after %s declared '
                'independent %r share block %r' % (what, (a, b), Zv[a]))
        norm = lambda C: sorted(sorted(int(c) for c in b) for b in C)
        chk(norm(st.Cd) == norm(w.Cd) and norm(st.Ci) == norm(w.Ci),
            'constraints-lost', lambda: 'after %s the model holds Cd=%r Ci=%r'
            ', declared Cd=%r Ci=%r' % (what, st.Cd, st.Ci, w.Cd, w.Ci))
        check_partitions(w)
        if w.Cd and not w.Ci:
            # Blocks of dependent columns count as one customer.
            counts, seen = {}, set()
            for b in w.Cd:
                counts[Zv[b[0]]] = counts.get(Zv[b[0]], 0) + 1
                seen.update(b)
            for c in w.cols():
                if c not in seen:
                    counts[Zv[c]] = counts.get(Zv[c], 0) + 1
            want = ref.crp(list(counts.values()), st.alpha())
            got = st.logpdf_score_crp()
            chk(core.close(got, want), 'constrained-score', lambda:
                'constrained column CRP score %r, recomputed %r' % (
                    got, want))

    def shrink(self, plan):
        if plan.get('bad'):
            yield dict(plan, bad=None)
        for p in HistoryProp.shrink(self, plan):
            yield p
        for k in ('Cd', 'Ci'):
            for i in range(len(plan['init'].get(k) or [])):
                new = copy.deepcopy(plan)
                del new['init'][k][i]
                yield new


PROP = P08()
