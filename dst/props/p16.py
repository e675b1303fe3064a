"""P16: an external inference backend can only move the latent structure.

The C++ engines are simulated (dst/backends.py): they record what they are
handed and return a structure scripted per call, fail, or return something
malformed; loom's files live in a scratch store, its disk can be full, and the
clock that names its projects is simulated.
"""

import builtins
import collections
import copy
import errno
import os
import random
import shutil
import tempfile

import numpy as np

from .. import backends, core, ref, simclock, simproc, world
from .hist import HistoryProp
from .p04 import check_partitions
from .p08 import dense, gen_constraints

LOOM_TYPES = dict(bernoulli='boolean', beta='real', categorical='categorical',
    exponential='real', geometric='real', lognormal='real', normal='real',
    normal_trunc='real', poisson='count', vonmises='real')

LOVECAT_BAD = ['raise', 'none', 'short-rows', 'long-rows', 'missing-view',
    'extra-view', 'short-columns', 'long-columns', 'gap-columns',
    'alpha-zero', 'alpha-negative', 'alpha-nan', 'view-alpha-zero',
    'view-alpha-nan', 'missing-alpha', 'violate', 'diag-short', 'diag-text']
LOOM_BAD = ['stage-cleanse', 'stage-transform', 'stage-ingest', 'stage-infer',
    'no-sample', 'torn-model', 'torn-assign', 'missing-feature',
    'extra-feature', 'dup-feature', 'missing-row', 'extra-row', 'dup-row',
    'swapped-row', 'short-groups', 'violate', 'disk-data', 'disk-schema']
REFUSED = ['S', 'kernels', 'progress', 'checkpoint']
LOVECAT_KERNELS = ['column_partition_hyperparameter',
    'column_partition_assignments', 'column_hyperparameters',
    'row_partition_hyperparameters', 'row_partition_assignments']


class EngineFailure(RuntimeError):
    pass


def canon(z):
    return tuple(dense(list(z)))


def structure_of(st):
    """Column partition and row partitions, free of names."""
    cols = list(st.outputs)
    Zv = st.Zv()
    z = canon([Zv[c] for c in cols])
    rows = {}
    for c, b in zip(cols, z):
        Zr = st.view_for(c).Zr()
        rows[b] = canon([Zr[r] for r in range(st.n_rows())])
    return z, tuple(rows[b] for b in sorted(rows))


def canon_structure(assign, parts):
    """The same for a structure given as block per column, cluster per row."""
    z = canon(assign)
    rows = {}
    for a, b in zip(assign, z):
        rows[b] = canon(parts[a])
    return z, tuple(rows[b] for b in sorted(rows))


def quiet(st):
    s = world.snapshot(st)
    s.pop('diagnostics')
    return s


class EWorld(world.World):
    """A history in which external engines take part."""

    def __init__(self, plan, ctx, store):
        init = plan['init']
        world.World.__init__(self, init, ctx)
        self.plan = plan
        self.store = store
        self.Cd = [list(b) for b in init.get('Cd') or []]
        self.Ci = [list(b) for b in init.get('Ci') or []]
        self.rivals = []

    # -- what the engine will answer ---------------------------------------

    def choose(self, rng, cols, n):
        """(block per column, cluster names per block)"""
        Z = None
        for _ in range(300):
            k = rng.randint(1, len(cols))
            Z = dense([rng.randrange(k) for _ in cols])
            d = dict(zip(cols, Z))
            if self.honours(d):
                break
        else:
            return None
        k = max(Z) + 1
        # Blocks in any order: the first column need not be in block 0.
        names = list(range(k))
        rng.shuffle(names)
        Z = [names[z] for z in Z]
        parts = []
        for v in range(k):
            g = rng.randint(1, n)
            z = dense([rng.randrange(g) for _ in range(n)])
            lab = list(range(max(z) + 1))
            rng.shuffle(lab)
            parts.append([lab[a] for a in z])
        return Z, parts

    def honours(self, d):
        return all(d[b[0]] == d[c] for b in self.Cd for c in b
            if c in d and b[0] in d) and all(d[a] != d[b]
            for a, b in self.Ci if a in d and b in d)

    def violating(self, rng, cols):
        for _ in range(300):
            k = rng.randint(1, len(cols))
            Z = dense([rng.randrange(k) for _ in cols])
            if not self.honours(dict(zip(cols, Z))):
                return Z
        raise world.Skip()

    # -- the model as the engine should see it ------------------------------

    def check_M_c(self, M_c, cols):
        chk = self.ctx.check
        names = {i: n for i, n in ((int(k), v)
            for k, v in M_c['idx_to_name'].items())}
        chk(sorted(names) == list(range(len(cols))), 'export-names',
            lambda: 'idx_to_name %r for %d columns' % (names, len(cols)))
        chk(len(set(names.values())) == len(cols), 'export-names',
            lambda: 'names repeat: %r' % (names,))
        chk({n: i for i, n in names.items()} == {
            k: int(v) for k, v in M_c['name_to_idx'].items()},
            'export-names', 'name_to_idx is not the inverse of idx_to_name')
        md = M_c['column_metadata']
        chk(len(md) == len(cols), 'export-metadata', 'column_metadata length')
        for i, c in enumerate(cols):
            t = self.types[c][0]
            want = 'normal_inverse_gamma' if t == 'normal' \
                else 'symmetric_dirichlet_discrete'
            chk(md[i]['modeltype'] == want, 'export-type',
                lambda: 'column %r (%s) is exported as %r' % (
                    c, t, md[i]['modeltype']))
        return names

    def check_T(self, T, M_c, cols):
        chk = self.ctx.check
        n = self.n_rows()
        chk(len(T) == n and all(len(r) == len(cols) for r in T),
            'export-table', 'the exported table has the wrong shape')
        for i, c in enumerate(cols):
            t = self.types[c][0]
            codes = {}
            if t == 'categorical':
                # crosscat calls value_to_code what maps codes to values.
                md = M_c['column_metadata'][i]
                codes = {float(k): float(v)
                    for k, v in md['value_to_code'].items()}
                chk({float(k): float(v) for k, v in
                        md['code_to_value'].items()}
                    == {v: k for k, v in codes.items()}, 'export-codes',
                    'code tables of column %r are not inverse' % (c,))
                chk(sorted(codes) == list(range(len(codes))), 'export-codes',
                    lambda: 'codes of column %r: %r' % (c, sorted(codes)))
            for r in range(n):
                x, y = self.table[c][r], float(T[r][i])
                if world.isnan(x):
                    ok = world.isnan(y)
                elif codes:
                    ok = codes.get(y) == x
                else:
                    ok = y == x
                chk(ok, 'export-table', lambda: 'cell (%d, %r) holds %r, '
                    'exported as %r' % (r, c, x, y))

    def check_lovecat_call(self, call, st, args):
        """What the engine was handed is exactly the current structure."""
        chk, cols, n = self.ctx.check, list(st.outputs), self.n_rows()
        names = self.check_M_c(call['M_c'], cols)
        self.check_T(call['T'], call['M_c'], cols)
        X_L, X_D = call['X_L'], call['X_D']
        cp = X_L['column_partition']
        assign = [int(a) for a in cp['assignments']]
        chk(len(assign) == len(cols) and sorted(set(assign))
            == list(range(len(X_D))), 'export-columns',
            lambda: 'assignments %r for %d row partitions' % (
                assign, len(X_D)))
        chk([int(x) for x in cp['counts']] == [assign.count(v)
            for v in range(len(X_D))], 'export-counts',
            lambda: 'column counts %r of %r' % (cp['counts'], assign))
        chk(float(cp['hypers']['alpha']) == float(st.alpha()),
            'export-alpha', lambda: 'alpha %r exported as %r' % (
                st.alpha(), cp['hypers']['alpha']))
        chk(all(len(p) == n for p in X_D), 'export-rows',
            lambda: 'row partitions of lengths %r, %d rows' % (
                [len(p) for p in X_D], n))
        want, got = structure_of(st), canon_structure(assign, X_D)
        chk(got[0] == want[0], 'export-columns', lambda: 'column partition '
            '%r exported as %r' % (want[0], got[0]))
        chk(got[1] == want[1], 'export-rows', lambda: 'row partitions %r '
            'exported as %r' % (want[1], got[1]))
        vs = X_L['view_state']
        chk(len(vs) == len(X_D), 'export-views', 'view_state length')
        for v, s in enumerate(vs):
            mine = [i for i in range(len(cols)) if assign[i] == v]
            view = st.view_for(cols[mine[0]])
            p = [int(k) for k in X_D[v]]
            m = s['row_partition_model']
            chk(sorted(set(p)) == list(range(len(set(p)))), 'export-clusters',
                lambda: 'clusters are named %r' % (sorted(set(p)),))
            chk([int(x) for x in m['counts']] == [p.count(k)
                for k in sorted(set(p))], 'export-counts',
                lambda: 'cluster counts %r of %r' % (m['counts'], p))
            chk(float(m['hypers']['alpha']) == float(view.alpha()),
                'export-alpha', lambda: 'view alpha %r exported as %r' % (
                    view.alpha(), m['hypers']['alpha']))
            chk(sorted(s['column_names']) == sorted(names[i] for i in mine),
                'export-views', lambda: 'block of columns %r exported with '
                'names %r' % (mine, s['column_names']))
            suff = s['column_component_suffstats']
            chk(len(suff) == len(mine) and all(len(x) == len(set(p))
                for x in suff), 'export-suffstats', 'suffstats shape')
        H = X_L['column_hypers']
        chk(len(H) == len(cols), 'export-hypers', 'column_hypers length')
        for i, c in enumerate(cols):
            h = st.dim_for(c).hypers
            if self.types[c][0] == 'normal':
                got = [float(H[i][k]) for k in ('mu', 'nu', 'r', 's')]
                want = [float(h[k]) for k in ('m', 'nu', 'r', 's')]
            else:
                got = [float(H[i]['dirichlet_alpha']), float(H[i]['K'])]
                want = [float(h['alpha']), float(len(set(x for x in
                    self.table[c] if not world.isnan(x))))]
            chk(got == want, 'export-hypers', lambda: 'hypers of column %r: '
                '%r exported as %r' % (c, want, got))
        # Declared constraints, by position.
        pos = {c: i for i, c in enumerate(cols)}
        ens = X_L['col_ensure']
        rel = lambda m: set(frozenset((int(a), int(b))) for a, bs in m.items()
            for b in bs if int(a) != int(b))
        dep = set(frozenset((pos[a], pos[b])) for blk in self.Cd for a in blk
            for b in blk if a != b)
        ind = set(frozenset((pos[a], pos[b])) for a, b in self.Ci)
        chk(rel(ens.get('dependent') or {}) == dep, 'export-constraints',
            lambda: 'dependent %r, declared %r at positions %r' % (
                ens.get('dependent'), self.Cd, pos))
        chk(rel(ens.get('independent') or {}) == ind, 'export-constraints',
            lambda: 'independent %r, declared %r at positions %r' % (
                ens.get('independent'), self.Ci, pos))
        self.check_args(call, st, args)

    def check_args(self, call, st, args):
        chk = self.ctx.check
        N, S = args.get('N'), args.get('S')
        chk(call['max_time'] == (-1 if S is None else S), 'export-args',
            lambda: 'S=%r became max_time=%r' % (S, call['max_time']))
        if N is not None:
            ok = call['n_steps'] == N
        elif S is None:
            ok = call['n_steps'] == 1
        else:
            ok = call['n_steps'] >= 1000
        chk(ok, 'export-args', lambda: 'N=%r S=%r became n_steps=%r' % (
            N, S, call['n_steps']))
        want = [st.outputs.index(c) for c in args.get('cols') or ()]
        chk(list(call['c']) == want, 'export-args', lambda: 'cols=%r became '
            'c=%r' % (args.get('cols'), call['c']))
        chk(list(call['r']) == list(args.get('rowids') or ()), 'export-args',
            lambda: 'rowids=%r became r=%r' % (args.get('rowids'), call['r']))
        chk(list(call['kernel_list']) == list(args.get('kernels') or ()),
            'export-args', lambda: 'kernels=%r became %r' % (
                args.get('kernels'), call['kernel_list']))
        ck = args.get('checkpoint')
        chk(bool(call['do_diagnostics']) == (ck is not None)
            and (ck is None or call['diagnostics_every_N'] == ck),
            'export-args', lambda: 'checkpoint=%r became %r every %r' % (
                ck, call['do_diagnostics'], call['diagnostics_every_N']))
        if args.get('seed') is not None:
            chk(call['seed'] == args['seed'], 'export-args',
                lambda: 'seed %r became %r' % (args['seed'], call['seed']))

    # -- lovecat ------------------------------------------------------------

    def lovecat_result(self, rng, cols, n, mode, given):
        """What the engine answers; `given` receives what it decided."""
        Z, parts = self.choose(rng, cols, n) or (None, None)
        if Z is None:
            raise world.Skip()
        if mode == 'violate':
            Z = self.violating(rng, cols)
            parts = [list(parts[0]) for _ in range(max(Z) + 1)]
        k = max(Z) + 1
        alpha = round(.1 + 4 * rng.random(), 4)
        valphas = [round(.1 + 4 * rng.random(), 4) for _ in range(k)]
        pick, g = rng.randrange(k), rng.randrange(len(cols))
        steps = rng.randint(1, 3)
        diag = dict(
            logscore=[[rng.uniform(-99, 0)] for _ in range(steps)],
            column_crp_alpha=[[rng.uniform(.1, 4)] for _ in range(steps)],
            column_partition_assignments=[[[rng.randrange(k)]
                for _ in range(steps)] for _ in cols])
        given.append(dict(Z=list(Z), parts=[list(p) for p in parts],
            alpha=alpha, valphas=list(valphas), diag=copy.deepcopy(diag)))

        def result(call):
            if mode == 'raise':
                raise EngineFailure('the engine died')
            if mode == 'none':
                return None
            X_L, X_D = backends.crosscat_structure(cols,
                dict(zip(cols, Z)), parts, alpha, valphas, call)
            asg = X_L['column_partition']['assignments']
            rpm = X_L['view_state'][pick]['row_partition_model']
            if mode == 'short-rows':
                X_D[pick].pop()
            elif mode == 'long-rows':
                X_D[pick].append(0)
            elif mode == 'missing-view':
                X_D.pop()
            elif mode == 'extra-view':
                X_D.append([0] * n)
                X_L['view_state'].append(copy.deepcopy(X_L['view_state'][0]))
            elif mode == 'short-columns':
                asg.pop()
            elif mode == 'long-columns':
                asg.append(0)
            elif mode == 'gap-columns':
                asg[g] = k + 3
            elif mode == 'alpha-zero':
                X_L['column_partition']['hypers']['alpha'] = 0.
            elif mode == 'alpha-negative':
                X_L['column_partition']['hypers']['alpha'] = -alpha
            elif mode == 'alpha-nan':
                X_L['column_partition']['hypers']['alpha'] = world.NAN
            elif mode == 'view-alpha-zero':
                rpm['hypers']['alpha'] = 0.
            elif mode == 'view-alpha-nan':
                rpm['hypers']['alpha'] = world.NAN
            elif mode == 'missing-alpha':
                del rpm['hypers']
            if not call['do_diagnostics']:
                return X_L, X_D
            d = {a: np.array(b) for a, b in diag.items()}
            if mode == 'diag-short':
                d['column_partition_assignments'] = \
                    d['column_partition_assignments'][:-1]
            elif mode == 'diag-text':
                d['column_crp_alpha'] = [['x']]
            return X_L, X_D, d
        return result

    def lovecat_args(self, op):
        cols, n = self.cols(), self.n_rows()
        a = {k: op['args'][k] for k in ('N', 'S', 'kernels', 'checkpoint')
            if k in op['args']}
        if op['args'].get('cols'):
            a['cols'] = list(dict.fromkeys(
                cols[i % len(cols)] for i in op['args']['cols']))
        if op['args'].get('rowids'):
            a['rowids'] = list(dict.fromkeys(
                i % n for i in op['args']['rowids']))
        return a

    def lovecat_able(self):
        return all(self.types[c][0] in ('normal', 'categorical')
            for c in self.cols())

    def op_lovecat(self, op):
        from cgpm.crosscat import lovecat
        st, ctx = self.state, self.ctx
        mode = op['mode']
        args = self.lovecat_args(op)
        if mode in ('diag-short', 'diag-text'):
            args['checkpoint'] = 1
        if mode == 'diag-short' and len(self.cols()) < 2:
            raise world.Skip()
        if mode == 'violate' and not (self.Cd or self.Ci):
            raise world.Skip()
        given = []
        rng = random.Random(op['s'])
        if not self.lovecat_able():
            before = world.snapshot(st)
            backends.CROSSCAT.reset(lambda call: None)
            self.must_fail(lambda: st.transition_lovecat(
                progress=False, **args), before, 'lovecat-types')
            ctx.check(not backends.CROSSCAT.calls, 'engine-called',
                'unsupported column types reached the engine')
            return 'unsupported'
        result = self.lovecat_result(rng, list(st.outputs), self.n_rows(),
            mode, given)
        want = given[0]

        def answer(call):
            self.check_lovecat_call(call, st, dict(args,
                seed=op['eseed'] if op['direct'] else None))
            return result(call)
        backends.CROSSCAT.reset(answer)
        before = world.snapshot(st)
        if op['direct']:
            f = lambda: lovecat.transition(st, seed=op['eseed'],
                progress=False, **args)
        else:
            f = lambda: st.transition_lovecat(progress=False, **args)
        if mode != 'good':
            ctx.fault('lovecat-' + mode)
            self.must_fail(f, before, 'lovecat-' + mode)
            return mode
        self.guarded(f)
        ctx.check(len(backends.CROSSCAT.calls) == 1, 'engine-calls',
            lambda: 'the engine ran %d times' % len(backends.CROSSCAT.calls))
        self.adopted(before, canon_structure(want['Z'], want['parts']),
            hypers=op['direct'])
        if op['direct']:
            ctx.check(float(st.alpha()) == want['alpha'], 'import-alpha',
                lambda: 'the engine returned alpha %r, the model has %r' % (
                    want['alpha'], st.alpha()))
            for i, c in enumerate(st.outputs):
                a = want['valphas'][want['Z'][i]]
                ctx.check(float(st.view_for(c).alpha()) == a, 'import-alpha',
                    lambda: 'the engine returned alpha %r for the block of '
                    'column %r, the model has %r' % (
                        a, c, st.view_for(c).alpha()))
        self.check_diagnostics(before, want['diag']
            if args.get('checkpoint') is not None else None,
            ignore=not op['direct'])
        return structure_of(st)

    def check_diagnostics(self, before, diag, ignore):
        st, chk = self.state, self.ctx.check
        old, new = before['diagnostics'], world.plain(dict(
            st.diagnostics))
        for k in ('logscore', 'column_crp_alpha'):
            more = [float(x[0]) for x in diag[k]] if diag else []
            want = list(old.get(k) or []) + more
            got = list(new.get(k) or [])
            chk(core.differ(got, want, 0., 1e-12) is None,
                'diagnostics', lambda: '%s: %r, expected %r' % (k, got, want))
        more = []
        if diag:
            cpa = diag['column_partition_assignments']
            for t in range(len(cpa[0])):
                more.append([[c, cpa[i][t][0]]
                    for i, c in enumerate(st.outputs)])
        want = list(old.get('column_partition') or []) + more
        got = list(new.get('column_partition') or [])
        chk(core.differ(got, want, 0., 0.) is None, 'diagnostics',
            lambda: 'column_partition: %r, expected %r' % (got, want))

    # -- what must hold after the engine ran --------------------------------

    def guarded(self, f):
        try:
            f()
        except (core.Violation, core.RunTimeout):
            raise
        except Exception as e:
            if world.numeric(e):
                self.ctx.probe('numeric')
                raise world.Skip()
            raise

    def must_fail(self, f, before, what):
        st, ctx = self.state, self.ctx
        err = None
        try:
            f()
        except (core.Violation, core.RunTimeout):
            raise
        except Exception as e:
            err = e
        ctx.probe('refused-' + what)
        ctx.check(err is not None, 'accepted-' + what,
            lambda: '%s raised nothing' % (what,))
        try:
            now = world.snapshot(st)
        except Exception as e:
            raise core.Violation('changed-by-' + what, 'after a failed run '
                '(%r) the model is unusable: %r' % (err, e))
        d = core.differ(now, before, 0., 0.)
        ctx.check(d is None, 'changed-by-' + what, lambda: 'the run failed '
            'with %r and changed the model: %s' % (err, d))
        self.usable()
        return err

    def adopted(self, before, want, hypers=False, state=None):
        """The model holds exactly the returned structure, nothing else
        moved."""
        st = self.state if state is None else state
        chk = self.ctx.check
        got = structure_of(st)
        chk(got[0] == want[0], 'import-columns', lambda: 'the engine '
            'returned column partition %r, the model holds %r' % (
                want[0], got[0]))
        chk(got[1] == want[1], 'import-rows', lambda: 'the engine returned '
            'row partitions %r, the model holds %r' % (want[1], got[1]))
        now = world.snapshot(st)
        for k in ('X', 'outputs', 'Cd', 'Ci', 'composite', 'hooked'):
            d = core.differ(now[k], before[k], 0., 0.)
            chk(d is None, 'import-' + k, lambda: '%s changed: %s' % (k, d))
        dims = lambda s: {c: d for v in s['views'].values()
            for c, d in v['dims'].items()}
        a, b = dims(before), dims(now)
        for c in a:
            keys = ['cctype', 'distargs'] + (['hypers'] if hypers else [])
            for k in keys:
                d = core.differ(b[c][k], a[c][k], 0., 0.)
                chk(d is None, 'import-' + k, lambda: '%s of column %r '
                    'changed: %s' % (k, c, d))
        if state is None:
            self.usable()

    def usable(self):
        check_partitions(self)
        if self.Ci:
            got = self.state.logpdf_likelihood()
            want = None
        else:
            got = self.state.logpdf_score()
            want = ref.Model(self.state, self.table, self.types).score() \
                if not self.Cd else None
        if want is not None:
            self.ctx.check(core.close(got, want, 1e-5, 1e-3), 'score',
                lambda: 'score %r, recomputed %r' % (got, want))

    # -- loom ---------------------------------------------------------------

    def check_loom_call(self, call, st, passes):
        chk = self.ctx.check
        cols = list(st.outputs)
        chk(call['passes'] == (1 if passes is None else passes),
            'export-passes', lambda: 'N=%r became %r passes' % (
                passes, call['passes']))
        want = {'c%05d' % c: backends.KIND_OF[LOOM_TYPES[self.types[c][0]]]
            for c in cols}
        got = dict(zip(call['features'], call['models']))
        chk(len(got) == len(call['features']) and got == want, 'export-types',
            lambda: 'loom was given features %r, the columns are %r' % (
                got, want))
        chk(len(call['rows']) == self.n_rows(), 'export-table',
            lambda: 'loom was given %d rows, the table has %d' % (
                len(call['rows']), self.n_rows()))
        for r, row in enumerate(call['rows']):
            for name, s in zip(call['features'], row):
                x = self.table[int(name[1:])][r]
                ok = s == '' if world.isnan(x) else (
                    s != '' and float(s) == x)
                chk(ok, 'export-table', lambda: 'cell (%d, %s) holds %r, '
                    'loom was given %r' % (r, name, x, s))

    def loom_result(self, rng, cols, n, mode, given):
        pair = self.choose(rng, cols, n)
        if pair is None:
            raise world.Skip()
        Z, parts = pair
        if mode == 'violate':
            Z = self.violating(rng, cols)
            parts = [list(parts[0]) for _ in range(max(Z) + 1)]
        given.append((list(Z), [list(p) for p in parts]))

        def result(call):
            block = {'c%05d' % c: z for c, z in zip(cols, Z)}
            kinds = [[] for _ in range(max(Z) + 1)]
            for f, name in enumerate(call['features']):
                # A loom fed another table answers for that table.
                kinds[block.get(name, 0)].append(f)
            kinds = [k for k in kinds]
            rows = list(range(n))
            rng.shuffle(rows)
            assign = [[r, [p[r] for p in parts]] for r in rows]
            fault = None
            i, j = rng.randrange(n), rng.randrange(len(kinds))
            if mode in ('no-sample', 'torn-model', 'torn-assign'):
                fault = mode
            elif mode == 'missing-feature':
                kinds[j].pop()
            elif mode == 'extra-feature':
                kinds[j].append(len(cols))
            elif mode == 'dup-feature':
                kinds.append([kinds[j][0]])
                for a in assign:
                    a[1].append(0)
            elif mode == 'missing-row':
                assign.pop(i)
            elif mode == 'extra-row':
                assign.append([n, list(assign[i][1])])
            elif mode == 'dup-row':
                assign.append([assign[i][0],
                    [g + 1 for g in assign[i][1]]])
            elif mode == 'swapped-row':
                assign[i][0] = n + rng.randrange(3)
            elif mode == 'short-groups':
                assign[i][1].pop()
            return kinds, assign, fault
        return result

    def loom_script(self, answer, mode):
        backends.LOOM.reset(answer)
        backends.LOOM.stage = None
        if mode.startswith('stage-'):
            def stage(name):
                if name == mode[6:]:
                    raise EngineFailure('loom %s died' % name)
            backends.LOOM.stage = stage

    def op_loom(self, op):
        from cgpm.crosscat import loomcat
        st, ctx = self.state, self.ctx
        mode, rng = op['mode'], random.Random(op['s'])
        before = world.snapshot(st)
        kw = dict(N=op['args'].get('N'))
        if mode == 'violate' and not (self.Cd or self.Ci):
            raise world.Skip()
        if mode == 'dup-feature' and len(self.cols()) < 1:
            raise world.Skip()
        if op['eseed'] % 2:
            kw['seed'] = op['eseed'] % 5
        if op['direct']:
            f = lambda: loomcat.transition(st, **kw)
        else:
            f = lambda: st.transition_loom(**kw)
        if self.conditional_dims():
            self.loom_script(lambda call: None, 'good')
            self.must_fail(f, before, 'loom-types')
            return 'unsupported'
        if mode in REFUSED:
            val = dict(S=1, kernels=['rows'], progress=True, checkpoint=1)
            self.loom_script(lambda call: None, 'good')
            ctx.fault('loom-refuses-' + mode)
            err = self.must_fail(lambda: st.transition_loom(**dict(kw, **{
                mode: val[mode]})), before, 'loom-' + mode)
            ctx.check(isinstance(err, ValueError), 'refusal',
                lambda: 'unsupported argument %s: %r' % (mode, err))
            return 'refused'
        given = []
        result = self.loom_result(rng, list(st.outputs), self.n_rows(), mode,
            given)

        def answer(call):
            self.check_loom_call(call, st, kw['N'])
            return result(call)
        self.loom_script(answer, mode)
        if mode != 'good':
            # Projects are created on demand: a later stage may not run.
            fails_late = mode.startswith(('stage-', 'disk-'))
            disk = Disk(self.store, mode[5:]) if mode.startswith('disk-') \
                else None
            err = None
            if fails_late:
                hit = self.maybe_fail(f, before, mode, disk, given)
                ctx.fault('loom-' + mode, 1 if hit else 0)
                return mode
            ctx.fault('loom-' + mode)
            self.must_fail(f, before, 'loom-' + mode)
            # The same model goes on with a healthy engine.
            if op['args'].get('again'):
                given2 = []
                r2 = self.loom_result(rng, list(st.outputs), self.n_rows(),
                    'good', given2)
                self.loom_script(lambda call: (self.check_loom_call(
                    call, st, kw['N']), r2(call))[1], 'good')
                self.guarded(f)
                self.adopted(before, canon_structure(*given2[0]),
                    hypers=op['direct'])
            return mode
        self.guarded(f)
        self.adopted(before, canon_structure(*given[0]), hypers=op['direct'])
        return structure_of(st)

    def maybe_fail(self, f, before, mode, disk, given):
        """A stage that runs only for a new project fails; then a retry."""
        st, ctx = self.state, self.ctx
        hit = [False]
        if disk is None:
            old = backends.LOOM.stage

            def stage(name):
                if name == mode[6:]:
                    hit[0] = True
                old(name)
            backends.LOOM.stage = stage
        err = None
        try:
            if disk is not None:
                with disk:
                    f()
            else:
                f()
        except (core.Violation, core.RunTimeout):
            raise
        except Exception as e:
            if world.numeric(e):
                raise world.Skip()
            err = e
        if disk is not None:
            hit[0] = disk.hit
        if not hit[0]:
            if err is not None:
                raise err
            self.adopted(before, canon_structure(*given[0]))
            return False
        ctx.check(err is not None, 'accepted-loom-' + mode,
            lambda: '%s: the failure of the engine was swallowed' % mode)
        d = core.differ(world.snapshot(st), before, 0., 0.)
        ctx.check(d is None, 'changed-by-loom-' + mode,
            lambda: '%s: %r changed the model: %s' % (mode, err, d))
        self.usable()
        # Healthy again: the run succeeds.
        backends.LOOM.stage = None
        self.guarded(f)
        self.adopted(before, canon_structure(*given[0]))
        return True

    # -- another model in the same store -------------------------------------

    def op_rival(self, op):
        """Another state starts a loom project, perhaps in the same second."""
        rng = random.Random(op['s'])
        if op['eseed'] % 3 == 0 and self.rivals:
            w = self.rivals[-1]
        else:
            init = world.gen_init(rng, world.COLLAPSED, cols=(1, 3),
                rows=(2, 5))
            if op['eseed'] % 3 == 1:
                # Same columns, other data.
                init = copy.deepcopy(self.init)
                for c in init['cols']:
                    c['u'] = world.gen_us(rng, init['rows'], 0.)
                init.pop('Cd', None)
                init.pop('Ci', None)
            w = EWorld(dict(self.plan, init=init), self.ctx, self.store)
            self.rivals.append(w)
        return w.op_loom(dict(op, mode='good', direct=True))

    def op_advance(self, op):
        simclock.CURRENT.advance(op['dt'])
        self.ctx.simtime += op['dt']

    def op_inc_dim(self, op):
        if self.conditional_dims() and op.get('v') is None:
            raise world.Skip()
        return world.World.op_inc_dim(self, op)


class Disk(object):
    """The disk of the store is full for one file."""

    def __init__(self, store, which):
        self.store, self.which, self.hit = store, which, False

    def __enter__(self):
        import pandas as pd
        from cgpm.crosscat import loomcat
        self.pd, self.loomcat = pd, loomcat
        self.to_csv = pd.DataFrame.to_csv
        disk = self

        def full(path, data):
            disk.hit = True
            with builtins.open(path, 'w') as f:
                f.write(data)
            raise OSError(errno.ENOSPC, 'No space left on device', path)

        def to_csv(frame, path=None, *a, **k):
            if disk.which == 'data' and isinstance(path, str) \
                    and path.startswith(disk.store):
                full(path, 'c00000')
            return disk.to_csv(frame, path, *a, **k)

        self.had = 'open' in vars(loomcat)
        self.old = vars(loomcat).get('open')
        inner = self.old or builtins.open

        def open_(path, mode='r', *a, **k):
            if disk.which == 'schema' and isinstance(path, str) \
                    and path.startswith(disk.store) and 'w' in mode:
                full(path, 'Feature Na')
            return inner(path, mode, *a, **k)
        pd.DataFrame.to_csv = to_csv
        loomcat.open = open_
        return self

    def __exit__(self, *exc):
        self.pd.DataFrame.to_csv = self.to_csv
        if self.had:
            self.loomcat.open = self.old
        else:
            del self.loomcat.open


class P16(HistoryProp):
    id = 'P16'
    runs = {'quick': 2500, 'thorough': 150000}
    wall = {'quick': 45., 'thorough': 780.}
    real = HistoryProp.real + ['cgpm.crosscat.lovecat',
        'cgpm.crosscat.loomcat', 'cgpm.crosscat.engine']
    stub = ['crosscat.LocalEngine and loom: scripted engines with the same '
        'interface (they are not installed)', 'clock: simulated',
        'processes of an ensemble: simulated']
    rule = ('one evaluation = one simulated run (random table, random history '
        'with runs of an external engine in between); distinct = distinct '
        'event-log digests of runs that executed at least two operations')
    assumptions = ['the stub speaks the interface of crosscat and loom as the '
        'code under test uses it', 'rows 0 and 1 of every column are observed '
        'and distinct']
    weights = dict(inc_row=2, uninc_row=1, inc_dim=1.5, uninc_dim=1, force=1,
        inc_rows=.3, forces=.3,
        cctype=1, kernel=4, restore=1)

    def prepare(self):
        HistoryProp.prepare(self)
        backends.install_crosscat()
        backends.install_loom()
        import cgpm.crosscat.lovecat
        import cgpm.crosscat.loomcat
        import cgpm.crosscat.engine
        from cgpm.utils import parallel_map as pm
        simproc.install(pm)

    def gen_ext(self, rng, kind):
        op = dict(op=kind, s=rng.randint(1, 10**6),
            eseed=rng.randint(1, 10**6), direct=rng.random() < .5, args={})
        a = op['args']
        if kind == 'lovecat':
            op['mode'] = 'good' if rng.random() < .6 \
                else rng.choice(LOVECAT_BAD)
            a['N'] = rng.choice([None, None, 1, 2, 7])
            a['S'] = rng.choice([None, None, 1, .5])
            a['kernels'] = rng.choice([None, None, rng.sample(
                LOVECAT_KERNELS, rng.randint(1, 3))])
            if rng.random() < .3:
                a['cols'] = [rng.randrange(6) for _ in
                    range(rng.randint(1, 3))]
            if rng.random() < .3:
                a['rowids'] = [rng.randrange(12) for _ in
                    range(rng.randint(1, 3))]
            a['checkpoint'] = rng.choice([None, None, 1, 3])
        elif kind == 'loom':
            r = rng.random()
            op['mode'] = 'good' if r < .6 else rng.choice(LOOM_BAD) \
                if r < .92 else rng.choice(REFUSED)
            a['N'] = rng.choice([None, 1, 2, 5])
            a['again'] = rng.random() < .5
        elif kind == 'rival':
            a['N'] = 1
        elif kind == 'advance':
            op['dt'] = rng.choice([.1, .4, 1., 2.])
        return op

    def gen(self, rng, tier):
        lov = rng.random() < .5
        types = ['normal', 'categorical'] if lov else \
            world.COLLAPSED * 2 + world.UNCOLLAPSED
        con = rng.random() < .2
        hi = 5 if tier == 'quick' else 6
        most = 20 if rng.random() < .1 else 7
        init = world.gen_init(rng, types, cols=(1, hi), rows=(2, most),
            zero_based=True if con else None)
        if con:
            n = len(init['cols'])
            init.pop('Zv', None)
            init.pop('Zrv', None)
            Cd, Ci = gen_constraints(rng, n)
            init['Cd'], init['Ci'] = Cd, Ci
        plan = dict(init=init)
        if not con and rng.random() < .12:
            plan['engine'] = self.gen_engine(rng, lov)
        ops = world.gen_history(rng, rng.randint(0, 8), self.weights, types,
            missing=rng.choice([0., .2, .5]),
            conditional=rng.random() < .25)
        kinds = rng.choice([['lovecat'], ['lovecat', 'loom'],
            ['loom', 'rival', 'advance', 'loom'], ['lovecat', 'loom', 'rival',
            'advance']]) if lov else ['loom', 'rival', 'advance', 'loom']
        out = []
        for op in ops + [None]:
            if rng.random() < .7 or op is None:
                out.append(self.gen_ext(rng, rng.choice(kinds)))
            if op is not None:
                out.append(op)
        plan['ops'] = out
        return plan

    def gen_engine(self, rng, lov):
        from .p01 import gen_sched
        ops = []
        for _ in range(rng.randint(1, 3)):
            kind = rng.choice(['lovecat', 'loom']) if lov else 'loom'
            ops.append(dict(kind=kind, s=rng.randint(1, 10**6),
                N=rng.choice([None, 1, 3]),
                bad=rng.choice([None, None, None, 'raise', 'rows', 'stage']),
                pick=rng.randrange(5), arg=rng.random() < .15,
                sel=rng.choice([None, None, [0], [1, 0]]),
                multi=int(rng.random() < .7),
                edit=rng.choice([None, 'row', 'kernels']),
                sched=gen_sched(rng, 15)))
        return dict(n=rng.randint(1, 3), ops=ops)

    def make(self, plan, ctx):
        return EWorld(plan, ctx, self.store)

    def execute(self, plan, ctx):
        self.store = tempfile.mkdtemp(prefix='p16-')
        old = os.environ.get('CGPM_LOOM_STORE')
        os.environ['CGPM_LOOM_STORE'] = self.store
        try:
            with simclock.using(simclock.Clock()):
                HistoryProp.execute(self, plan, ctx)
        finally:
            backends.LOOM.stage = None
            if old is None:
                os.environ.pop('CGPM_LOOM_STORE', None)
            else:
                os.environ['CGPM_LOOM_STORE'] = old
            shutil.rmtree(self.store, ignore_errors=True)

    def end(self, w, plan):
        if plan.get('engine'):
            Ensemble(w, plan, w.ctx).run()

    def nontrivial(self, plan, ctx):
        return ctx.ops >= 1

    def shrink(self, plan):
        if plan.get('engine'):
            yield {k: v for k, v in plan.items() if k != 'engine'}
            for i in range(len(plan['engine']['ops'])):
                new = copy.deepcopy(plan)
                del new['engine']['ops'][i]
                yield new
        for p in world.shrink_plan(plan):
            yield p
        for i, op in enumerate(plan['ops']):
            if op.get('args'):
                new = copy.deepcopy(plan)
                new['ops'][i]['args'] = {}
                yield new


class Ensemble(object):
    """The same guarantees for every state of an ensemble."""

    def __init__(self, w, plan, ctx):
        self.plan, self.ctx = plan['engine'], ctx
        init = plan['init']
        self.init = init
        self.w = EWorld(dict(plan, init=init), ctx, w.store)

    def sim(self, op):
        return simproc.Simulation(sched=op['sched'], ncpu=2, cap=65536,
            ctx=self.ctx, max_steps=60000)

    def run(self):
        from cgpm.crosscat.engine import Engine
        init = self.init
        X = np.asarray([world.data_of(c) for c in init['cols']],
            dtype=float).T
        with simproc.Simulation(ncpu=2, cap=65536, ctx=self.ctx, sched=[]):
            self.eng = Engine(X, num_states=self.plan['n'],
                rng=np.random.RandomState(init['seed']), multiprocess=0,
                outputs=[c['id'] for c in init['cols']],
                cctypes=[c['cctype'] for c in init['cols']],
                distargs=copy.deepcopy(
                    [c['distargs'] for c in init['cols']]))
        for op in self.plan['ops']:
            for i, s in enumerate(self.eng.states):
                s.rng.seed(op['s'] + i)
            self.edit(op)
            if op['kind'] == 'lovecat' and not self.w.lovecat_able():
                continue
            getattr(self, op['kind'])(op)
            self.ctx.ops += 1

    def edit(self, op):
        rng = random.Random(op['s'])
        if op['edit'] == 'kernels':
            for s in self.eng.states:
                s.transition(N=1, kernels=['rows'], progress=False)
        elif op['edit'] == 'row':
            w, n = self.w, self.w.n_rows()
            if n >= 9:
                return
            obs = w.observation([rng.random() for _ in range(5)])
            self.eng.incorporate(n, obs, multiprocess=0)
            for c in w.cols():
                w.table[c].append(obs.get(c, world.NAN))

    def attempt(self, f, op):
        with self.sim(op) as sim:
            try:
                f()
                err = None
            except (simproc.Deadlock, simproc.StepLimit):
                err = None
            except (core.Violation, core.RunTimeout):
                raise
            except Exception as e:
                err = e
            self.ctx.check(sim.deadlocked is None and not sim.limit, 'hang',
                'the ensemble hangs in an external engine')
        return err

    def finish(self, err, failed, before, moved, chosen, what):
        chk, eng = self.ctx.check, self.eng
        chk(len(eng.states) == len(before), 'ensemble-size',
            'the number of states changed')
        if failed:
            self.ctx.fault('ensemble-' + what)
            chk(err is not None, 'accepted-ensemble-' + what,
                lambda: 'the engine failed and nothing was raised')
        elif err is not None:
            if world.numeric(err):
                return
            raise err
        for i, st in enumerate(eng.states):
            if i not in moved and (failed or i not in chosen):
                d = core.differ(world.snapshot(st), before[i], 0., 0.)
                chk(d is None, 'ensemble-changed', lambda: 'state %d was not '
                    'to change: %s' % (i, d))

    def check_states(self, before, chosen, pairs):
        """Each state holds what the engine answered to its structure."""
        pairs = collections.Counter(pairs)
        for i in chosen:
            st = self.eng.states[i]
            w = copy.copy(self.w)
            w.state = st
            self.w.state = st
            key = (self.olds[i], structure_of(st))
            self.ctx.check(pairs[key] > 0, 'ensemble-import',
                lambda: 'state %d held %r and holds %r, the engine was given '
                'and answered %r' % (i, key[0], key[1], dict(pairs)))
            pairs[key] -= 1
            self.w.adopted(before[i], key[1], state=st)
            self.w.usable()

    def lovecat(self, op):
        eng, w = self.eng, self.w
        n = len(eng.states)
        sel = None if op['sel'] is None else list(dict.fromkeys(
            i % n for i in op['sel']))
        chosen = list(range(n)) if sel is None else sel
        before = [world.snapshot(s) for s in eng.states]
        self.olds = [structure_of(s) for s in eng.states]
        w.state = eng.states[0]
        cols, rows = list(w.state.outputs), w.n_rows()
        pairs, count = [], [0]

        def answer(call):
            k = count[0]
            count[0] += 1
            got = canon_structure(
                call['X_L']['column_partition']['assignments'], call['X_D'])
            given = []
            mode = 'good'
            if op['bad'] and k == op['pick'] % len(chosen):
                mode = 'raise' if op['bad'] == 'raise' else 'short-rows'
            r = w.lovecat_result(random.Random(op['s'] * 31 + call['seed']),
                cols, rows, mode, given)
            w.check_M_c(call['M_c'], cols)
            w.check_T(call['T'], call['M_c'], cols)
            self.ctx.check(got in [self.olds[i] for i in chosen],
                'export-rows', lambda: 'the engine was given %r, the states '
                'hold %r' % (got, self.olds))
            pairs.append((got, canon_structure(given[0]['Z'],
                given[0]['parts'])))
            return r(call)
        backends.CROSSCAT.reset(answer)
        err = self.attempt(lambda: eng.transition_lovecat(N=op['N'],
            statenos=sel, progress=False, multiprocess=op['multi']), op)
        if isinstance(err, core.Violation):
            raise err
        failed = bool(op['bad']) and len(chosen) > 0
        # In place, the states before the failing one have already moved.
        moved = chosen[:op['pick'] % len(chosen)] \
            if failed and not op['multi'] else ()
        self.finish(err, failed, before, moved, chosen, 'lovecat')
        if err is None and not failed:
            self.check_states(before, chosen, pairs)
        self.ctx.probe('ensemble-lovecat')

    def loom(self, op):
        eng, w = self.eng, self.w
        n = len(eng.states)
        before = [world.snapshot(s) for s in eng.states]
        self.olds = [structure_of(s) for s in eng.states]
        w.state = eng.states[0]
        cols, rows = list(w.state.outputs), w.n_rows()
        answers = {}

        def answer(call):
            given = []
            w.check_loom_call(call, eng.states[0], op['N'])
            mode = 'good'
            if op['bad'] in ('raise', 'rows') and \
                    call['seed'] == op['pick'] % n:
                mode = 'missing-row'
                if op['bad'] == 'raise':
                    raise EngineFailure('loom died')
            r = w.loom_result(random.Random(op['s'] + call['seed']), cols,
                rows, mode, given)
            answers[call['seed']] = canon_structure(*given[0])
            return r(call)
        w.loom_script(answer, 'stage-infer' if op['bad'] == 'stage'
            else 'good')
        kw = dict(N=op['N'])
        # What Loom does not support is refused.
        refused = dict(checkpoint=2, S=1, kernels=['rows'], progress=True)
        for k in sorted(refused) if op['arg'] or not op['s'] % 3 else ():
            self.ctx.fault('ensemble-loom-refuses-' + k)
            err = self.attempt(lambda: eng.transition_loom(
                multiprocess=op['multi'], **dict(kw, **{k: refused[k]})), op)
            self.finish(err, True, before, (), list(range(n)), 'loom')
        if op['arg']:
            return
        err = self.attempt(lambda: eng.transition_loom(
            multiprocess=op['multi'], **kw), op)
        failed = bool(op['bad'])
        self.finish(err, failed, before, (), list(range(n)), 'loom')
        if err is None and not failed:
            self.ctx.check(sorted(answers) == list(range(n)),
                'ensemble-samples', lambda: 'loom ran samples %r for %d '
                'states' % (sorted(answers), n))
            self.check_states(before, list(range(n)),
                [(self.olds[i], answers[i]) for i in range(n)])
        self.ctx.probe('ensemble-loom')


PROP = P16()
