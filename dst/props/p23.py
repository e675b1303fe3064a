"""P23: VentureScript components stay in step with their interpreter.

The interpreter is a simulated one (dst/ripl.py), whose calls fail when the
script of the run says so, with a clock that may stand still or jump back.
"""

import copy
import itertools
import json
import math
import random

from scipy import stats

from .. import core, ripl, simclock, world
from ..simrng import SimRng

KINDS = dict(inc=6, uninc=2, sim=4, badinc=2, badsim=2, transition=2,
    restore=1.5, law=1.2, posterior=.8, meta=.4, badnew=.3, clone=.5)


def gen_program(rng, n_in, n_out, names):
    K = rng.randint(1, 3)
    def probs(n):
        w = [rng.choice([0., 1., 1., 2., 5.]) for _ in range(n)]
        if not any(w):
            w[rng.randrange(n)] = 1.
        return [round(x / sum(w), 6) for x in w]
    return dict(inputs=names, latent=[1. / K] * K if rng.random() < .3 else
        [round(x, 6) for x in softmax([rng.gauss(0, 1) for _ in range(K)])],
        tables=[[probs(n) for _ in range(K)]
            for n in [rng.randint(2, 3) for _ in range(n_out)]])


def softmax(x):
    z = sum(math.exp(v) for v in x)
    return [math.exp(v) / z for v in x]


class VsWorld(object):
    """A component and what its client knows about it."""

    def __init__(self, plan, ctx):
        from cgpm.venturescript.vscgpm import VsCGpm
        self.cls = VsCGpm
        self.ctx, self.init = ctx, plan['init']
        self.program = self.init['program']
        self.outputs, self.inputs = self.init['outputs'], self.init['inputs']
        self.rows = {}      # row -> (inputs, {output: value})
        self.others = []    # (component, rows): restored ones, set aside
        self.nseed = self.init['seed']
        self.cgpm = self.build()

    def build(self, **kw):
        a = dict(outputs=list(self.outputs), inputs=list(self.inputs),
            rng=SimRng(self.nseed), source=json.dumps(self.program),
            mode=self.init['mode'], plugins=self.init['plugins'])
        a.update(kw)
        return self.cls(**a)

    # -- The law of the program ---------------------------------------------
    def posterior(self, known, ins, targets):
        """{values of the targets: probability} given some cells of a row."""
        P = self.program
        t = tuple(float(ins[i]) for i in self.inputs)
        tables = [[ripl.law(P, self.outputs.index(q), k, t)
            for k in range(len(P['latent']))] for q in targets]
        w = []
        for k, p in enumerate(P['latent']):
            for q, v in known.items():
                p *= ripl.law(P, self.outputs.index(q), k, t).get(float(v), 0.)
            w.append(p)
        if sum(w) <= 0:
            return None
        out = {}
        for vs in itertools.product(*[sorted(tab[0]) for tab in tables]):
            out[vs] = sum(wk * math.prod(tab[k][v]
                for tab, v in zip(tables, vs)) for k, wk in enumerate(w))
        z = sum(out.values())
        return {v: p / z for v, p in out.items()}

    def values(self, q):
        return list(range(len(self.program['tables'][
            self.outputs.index(q)][0])))

    # -- What must hold between operations ------------------------------------
    def check(self, what):
        for cgpm, rows in self.others + [(self.cgpm, self.rows)]:
            self.check_one(what, cgpm, rows)

    def check_one(self, what, cgpm, rows):
        chk = self.ctx.check
        want = {(r, self.outputs.index(q)):
            (tuple(float(ins[i]) for i in self.inputs), float(v))
            for r, (ins, obs) in rows.items() for q, v in obs.items()}
        got = cgpm.ripl.observations()
        chk(got == want, 'out-of-step', lambda: 'after %s the interpreter '
            'conditions on %r, the client incorporated %r' % (what, got, want))
        s = cgpm.ripl.strays()
        chk(not s, 'left-behind', lambda: 'after %s the interpreter still '
            'holds %r' % (what, s))

    def snapshot(self):
        return (self.cgpm.ripl.observations(), self.cgpm.ripl.strays(),
            sorted(self.cgpm.ripl.directives))

    # -- Arguments -----------------------------------------------------------
    def row_inputs(self, rng, row):
        """Inputs for a row: those it has, or omitted; any for a new row."""
        if row in self.rows:
            ins = self.rows[row][0]
            return dict(ins), (rng.choice([None, {}, dict(ins)]))
        ins = {i: rng.choice([0, 1, 2, 2.]) for i in self.inputs}
        return ins, dict(ins) if ins else rng.choice([None, {}])

    def pick_row(self, rng):
        pool = [0, 1, 2, 3, 7, -5, 100]
        if self.rows and rng.random() < .5:
            return rng.choice(sorted(self.rows))
        return rng.choice(pool)

    def consistent(self, rng, row, ins, cells, p_bad=.1):
        """Values for cells which the program can produce with the others."""
        known = dict(self.rows.get(row, (None, {}))[1])
        out = {}
        for q in cells:
            if rng.random() < p_bad:
                out[q] = rng.choice(self.values(q))
                known[q] = out[q]
                if self.posterior(known, ins, []) is None:
                    return None, q
                continue
            post = self.posterior(known, ins, [q])
            vs = [v[0] for v, p in sorted(post.items()) if p > 0]
            out[q] = rng.choice(vs)
            if rng.random() < .5:
                out[q] = int(out[q])
            known[q] = out[q]
        return out, None

    def attempt(self, op, f, what):
        """(accepted, result); a failed operation leaves no trace."""
        before = self.snapshot()
        k = op.get('fail')
        ripl.WORLD.countdown = k
        n = ripl.WORLD.failed
        try:
            r = f()
        except Exception as e:
            hit = ripl.WORLD.failed > n
            ripl.WORLD.countdown = None
            if not hit and not isinstance(e, (ValueError, ripl.RiplError)):
                raise
            if hit:
                self.ctx.fault('an interpreter call that fails')
                self.ctx.probe('failed-%s-%d' % (op['op'], min(k, 4)))
            self.ctx.log('rejected', type(e).__name__)
            after = self.snapshot()
            self.ctx.check(after == before, 'half-done', lambda: '%s failed '
                '(%s: %s) and changed the interpreter: %r, before %r' % (
                    what, type(e).__name__, e, after, before))
            return (None if hit else False), e
        ripl.WORLD.countdown = None
        return True, r

    # -- Operations ------------------------------------------------------------
    def apply(self, op):
        return getattr(self, 'op_' + op['op'])(op, random.Random(op['seed']))

    def op_inc(self, op, rng):
        row = self.pick_row(rng)
        free = [q for q in self.outputs
            if q not in self.rows.get(row, (None, {}))[1]]
        if not free:
            raise world.Skip()
        ins, given = self.row_inputs(rng, row)
        cells = rng.sample(free, rng.randint(1, len(free)))
        obs, bad = self.consistent(rng, row, ins, cells, 0.)
        what = 'incorporate(%r, %r, %r)' % (row, obs, given)
        args = copy.deepcopy((obs, given))
        ok, r = self.attempt(op, lambda: self.cgpm.incorporate(row, obs,
            given), what)
        self.ctx.check((obs, given) == args, 'argument-mutated',
            '%s changed its arguments' % what)
        if ok is None:
            # The failed call can be made again.
            if rng.random() < .5:
                ok, r = self.attempt(dict(op, fail=None),
                    lambda: self.cgpm.incorporate(row, obs, given), what)
                self.ctx.probe('again')
            else:
                return
        self.ctx.check(ok, 'refused', lambda: '%s: %r' % (what, r))
        old = self.rows.get(row, (ins, {}))
        self.rows[row] = (old[0], merged(old[1], obs))
        # The arguments are the client's to change.
        if given:
            for i in given:
                given[i] += 1
        obs.clear()

    def op_badinc(self, op, rng):
        row = self.pick_row(rng)
        ins, given = self.row_inputs(rng, row)
        given = dict(ins)
        have = self.rows.get(row, (None, {}))[1]
        free = [q for q in self.outputs if q not in have]
        kind = rng.choice(['empty', 'nan', 'unknown', 'impossible', 'dup',
            'nan-input', 'contradiction', 'missing', 'extra', 'float-nan2'])
        obs, _b = self.consistent(rng, row, ins, free, 0.)
        if kind == 'empty':
            obs = {}
        elif kind in ('nan', 'float-nan2'):
            if not free:
                raise world.Skip()
            obs[rng.choice(free)] = float('nan')
        elif kind == 'unknown':
            obs[rng.choice([99] + list(self.inputs))] = 0
        elif kind == 'impossible':
            if not free:
                raise world.Skip()
            obs = dict(sorted(obs.items(), key=lambda _c: rng.random()))
            obs[rng.choice(free)] = 57
        elif kind == 'dup':
            if not have:
                raise world.Skip()
            obs[rng.choice(sorted(have))] = 0
        elif kind == 'nan-input':
            if not given:
                raise world.Skip()
            given[rng.choice(self.inputs)] = float('nan')
        elif kind == 'contradiction':
            if row not in self.rows or not given:
                raise world.Skip()
            given[rng.choice(self.inputs)] += 1
        elif kind == 'missing':
            if row in self.rows or not given:
                raise world.Skip()
            given.pop(rng.choice(self.inputs))
            if not given:
                given = None
        elif kind == 'extra':
            given[98] = 1
        if kind in ('nan-input', 'contradiction', 'missing', 'extra') \
                and not obs:
            raise world.Skip()
        what = 'incorporate(%r, %r, %r) [%s]' % (row, obs, given, kind)
        ok, r = self.attempt(op, lambda: self.cgpm.incorporate(row, obs,
            given), what)
        self.ctx.check(not ok, 'accepted', lambda: '%s was accepted' % what)
        self.ctx.fault('invalid incorporate: ' + kind)

    def op_uninc(self, op, rng):
        row = self.pick_row(rng)
        what = 'unincorporate(%r)' % row
        ok, r = self.attempt(op, lambda: self.cgpm.unincorporate(row), what)
        if row in self.rows:
            self.ctx.check(ok, 'refused', lambda: '%s: %r' % (what, r))
            del self.rows[row]
        else:
            self.ctx.check(not ok, 'accepted', '%s was accepted' % what)

    def query(self, rng, fresh=False, constrained=False):
        row = rng.choice([None, -9, 1000]) if fresh else self.pick_row(rng)
        if not fresh and row not in self.rows and rng.random() < .3:
            row = None
        ins, given = self.row_inputs(rng, row)
        have = self.rows.get(row, (None, {}))[1]
        free = [q for q in self.outputs if q not in have]
        pool = rng.sample(self.outputs, len(self.outputs))
        targets = pool[:rng.randint(1, len(pool))]
        rest = [q for q in pool if q not in targets and q in free]
        cond = rest[:rng.randint(1 if constrained and rest else 0, len(rest))]
        if rng.random() < .3 and not constrained:
            cond = []
        con, _b = self.consistent(rng, row, ins, cond, 0.)
        return row, ins, given, targets, con, have

    def simulate(self, op, q, N):
        row, ins, given, targets, con, have = q
        con_arg = con or random.Random(op['seed']).choice([None, {}])
        what = 'simulate(%r, %r, %r, %r, N=%r)' % (row, targets, con_arg,
            given, N)
        args = copy.deepcopy((targets, con_arg, given))
        if N is None and op['seed'] % 2:
            f = lambda: self.cgpm.simulate(row, targets, con_arg, given)
        elif op['seed'] % 3:
            f = lambda: self.cgpm.simulate(row, targets, con_arg, given, N)
        else:
            f = lambda: self.cgpm.simulate(row, targets, constraints=con_arg,
                inputs=given, N=N)
        ok, r = self.attempt(op, f, what)
        self.ctx.check((targets, con_arg, given) == args, 'argument-mutated',
            '%s changed its arguments' % what)
        if not ok:
            self.ctx.check(ok is None, 'refused', lambda: '%s: %r' % (what, r))
            return None, what
        return r, what

    def support(self, q, samples, what):
        row, ins, given, targets, con, have = q
        for s in samples:
            self.ctx.check(isinstance(s, dict) and set(s) == set(targets),
                'answer', lambda: '%s gave %r' % (what, s))
            for t in targets:
                if t in have:
                    self.ctx.check(s[t] == have[t], 'unlike-data', lambda:
                        '%s gave %r, output %d was incorporated as %r' % (
                            what, s, t, have[t]))
            new = [t for t in targets if t not in have]
            known = dict(con)
            if con:
                known.update(have)
            law = self.posterior(known, ins, new)
            key = tuple(float(s[t]) for t in new)
            self.ctx.check(law.get(key, 0.) > 0, 'impossible-sample',
                lambda: '%s gave %r, which has no probability' % (what, s))

    def op_sim(self, op, rng):
        q = self.query(rng)
        N = rng.choice([None, None, 1, 3])
        r, what = self.simulate(op, q, N)
        if r is None:
            return
        self.ctx.check(isinstance(r, dict) if N is None else
            isinstance(r, list) and len(r) == N, 'count',
            lambda: '%s gave %r' % (what, r))
        self.support(q, [r] if N is None else r, what)
        # The answers are the client's to change.
        for s in ([r] if N is None else r):
            s.clear()
        return r

    def op_badsim(self, op, rng):
        row, ins, given, targets, con, have = self.query(rng)
        given = dict(ins)
        kind = rng.choice(['nan', 'unknown-target', 'unknown-constraint',
            'overlap', 'observed-constraint', 'nan-input', 'contradiction',
            'missing', 'impossible', 'unknown-input'])
        free = [q for q in self.outputs if q not in have and q not in targets]
        if kind == 'nan':
            if not free:
                raise world.Skip()
            con[rng.choice(free)] = float('nan')
        elif kind == 'unknown-target':
            targets = targets + [99]
        elif kind == 'unknown-constraint':
            con[rng.choice([99] + list(self.inputs))] = 0
        elif kind == 'overlap':
            con[targets[0]] = 0
        elif kind == 'observed-constraint':
            pool = [q for q in sorted(have) if q not in targets]
            if not pool:
                raise world.Skip()
            con[rng.choice(pool)] = have[pool[0]]
        elif kind == 'nan-input':
            if not given:
                raise world.Skip()
            given[rng.choice(self.inputs)] = float('nan')
        elif kind == 'contradiction':
            if row not in self.rows or not given:
                raise world.Skip()
            given[rng.choice(self.inputs)] += 1
        elif kind == 'missing':
            if row in self.rows or not given:
                raise world.Skip()
            given.pop(rng.choice(self.inputs))
            given = given or None
        elif kind == 'impossible':
            if not free:
                raise world.Skip()
            con[rng.choice(free)] = 57
        elif kind == 'unknown-input':
            given[98] = 0
        what = 'simulate(%r, %r, %r, %r) [%s]' % (row, targets, con, given,
            kind)
        ok, r = self.attempt(op, lambda: self.cgpm.simulate(row, targets, con,
            given), what)
        self.ctx.check(not ok, 'accepted', lambda: '%s gave %r' % (what, r))
        self.ctx.fault('invalid simulate: ' + kind)

    def op_transition(self, op, rng):
        n = rng.choice([None, 1, 3])
        if rng.random() < .3:
            f = lambda: self.cgpm.transition(program='transition 2')
        elif n is None:
            f = lambda: self.cgpm.transition()
        else:
            f = lambda: self.cgpm.transition(N=n)
        ok, r = self.attempt(op, f, 'transition')
        self.ctx.check(ok is not False, 'refused', lambda: repr(r))

    def restored(self, meta, seed):
        from cgpm.utils import general as gu
        if seed is None:
            return gu.build_cgpm(meta, None)
        return gu.build_cgpm(meta, SimRng(seed))

    def op_meta(self, op, rng):
        """Saving (which may fail) changes nothing."""
        self.attempt(op, lambda: self.cgpm.to_metadata(), 'to_metadata')

    def op_restore(self, op, rng):
        ripl.WORLD.countdown = None
        meta = self.cgpm.to_metadata()
        text = json.dumps(meta, sort_keys=True)
        if rng.random() < .5:
            meta = json.loads(text)
        seed = rng.choice([None, rng.randint(1, 10**6)])
        chk = self.ctx.check
        ripl.WORLD.clock.advance(1.)
        first = self.restored(meta, seed)
        chk(json.dumps(meta, sort_keys=True) == text, 'metadata-changed',
            lambda: 'restoring changed the metadata it was given: %s, '
            'before %s' % (json.dumps(meta['obs'], sort_keys=True),
                json.dumps(json.loads(text)['obs'], sort_keys=True)))
        second = self.restored(meta, seed)
        self.ctx.fault('restart from metadata')
        plugins = [p.strip() for p in (self.init['plugins'] or '').split(',')
            if p]
        for c in (first, second):
            chk(c.ripl.plugins == plugins, 'restored', lambda: 'plugins %r '
                'are loaded, not %r' % (c.ripl.plugins, plugins))
            chk(c.outputs == self.outputs and c.inputs == self.inputs,
                'restored', 'outputs or inputs differ')
            self.check_one('a restart', c, self.rows)
        chk(json.dumps(first.to_metadata(), sort_keys=True) == json.dumps(
            second.to_metadata(), sort_keys=True), 'restored',
            'two components restored from the same metadata differ')
        # The same seed gives the same answers.
        ask = random.Random(op['seed'])
        q = self.query(ask)
        a = [c.simulate(q[0], q[3], q[4], q[2], 4) for c in (first, second)]
        chk(a[0] == a[1], 'restored', lambda: 'two components restored with '
            'the same seed answer %r and %r' % tuple(a))
        chk(isinstance(a[0], list) and len(a[0]) == 4, 'count',
            lambda: 'simulate with N=4 gave %.200r' % (a[0],))
        self.support(q, a[0], 'simulate after a restart')
        if seed is not None:
            again, other = [self.restored(meta, x) for x in (seed, seed + 1)]
            if unlike(self.posterior(merged(q[4], q[5]), q[1], [t for t in
                    q[3] if t not in q[5]]) if q[4] or q[0] not in self.rows
                    else {(): 1.}, 80):
                self.ctx.probe('seeds')
                chk(again.simulate(q[0], q[3], q[4], q[2], 80) !=
                    other.simulate(q[0], q[3], q[4], q[2], 80), 'restored',
                    'components restored with different seeds answer alike')
        # The components live on separately.
        keep = [first, second, self.cgpm]
        rng.shuffle(keep)
        self.cgpm = keep[0]
        aside = [(c, copy.deepcopy(self.rows)) for c in keep[1:]]
        self.others = (self.others + aside)[-3:]

    def op_clone(self, op, rng):
        """Go on with another of the components."""
        if not self.others:
            raise world.Skip()
        c, rows = self.others.pop(0)
        self.others.append((self.cgpm, self.rows))
        self.cgpm, self.rows = c, rows

    def op_badnew(self, op, rng):
        kind = rng.choice(['outputs', 'inputs', 'unique-out', 'unique-in',
            'overlap', 'observers'])
        o, i = list(self.outputs), list(self.inputs)
        kw = {}
        if kind == 'observers':
            kw['source'] = json.dumps(dict(self.program,
                observers=len(o) + rng.choice([-1, 1])))
        if kind == 'outputs':
            o = o + [90]
        elif kind == 'inputs':
            i = i + [91]
        elif kind == 'unique-out':
            o = o[:-1] + [o[0]] if len(o) > 1 else o + o
        elif kind == 'unique-in':
            if not i:
                raise world.Skip()
            i = i[:-1] + [i[0]] if len(i) > 1 else i + i
        elif kind == 'overlap':
            if not i:
                raise world.Skip()
            i = i[:-1] + [o[0]]
        try:
            self.build(outputs=o, inputs=i, **kw)
        except ValueError:
            self.ctx.fault('invalid component: ' + kind)
            return
        self.ctx.check(False, 'accepted', 'a component with outputs %r and '
            'inputs %r for a program with %d and %d was accepted' % (
                o, i, len(self.outputs), len(self.inputs)))

    # -- Laws ------------------------------------------------------------------
    def law_test(self, law, draw, what):
        """Two stages: suspicion, then a larger sample of its own."""
        for n, level in ((200, 1e-3), (3000, 1e-11)):
            got = {}
            for v in draw(n):
                got[v] = got.get(v, 0) + 1
            tail, v = min((tail_of(got.get(v, 0), n, p), v)
                for v, p in law.items())
            if tail > level / len(law):
                return
        self.ctx.check(False, 'law', lambda: '%s: %d of %d samples are %r, '
            'whose probability is %.5f' % (what, got.get(v, 0), n, v, law[v]))

    def op_law(self, op, rng):
        """Constraints, or a row never seen: the law of the program."""
        op = dict(op, fail=None)
        fresh = rng.random() < .6
        q = self.query(rng, fresh, constrained=rng.random() < .7)
        row, ins, given, targets, con, have = q
        if row in self.rows and not con:
            raise world.Skip()
        known = dict(con)
        known.update(have)
        targets[:] = [t for t in targets if t not in have]
        if not targets:
            raise world.Skip()
        law = self.posterior(known, ins, targets)

        def draw(n):
            r, what = self.simulate(op, q, n)
            self.ctx.check(isinstance(r, list) and len(r) == n and all(
                isinstance(s, dict) and set(s) >= set(targets) for s in r),
                'count', lambda: '%s gave %.200r' % (what, r))
            return [tuple(float(s[t]) for t in targets) for s in r]
        self.ctx.probe('law-%d' % bool(con))
        self.law_test(law, draw, 'simulate(%r, %r, %r, %r)' % (row, targets,
            con, ins))

    def op_posterior(self, op, rng):
        """Inference moves the rows to their posterior."""
        op = dict(op, fail=None)
        rows = [r for r in sorted(self.rows)
            if len(self.rows[r][1]) < len(self.outputs)]
        if not rows:
            raise world.Skip()
        row = rng.choice(rows)
        ins, have = self.rows[row]
        targets = [q for q in self.outputs if q not in have]
        law = self.posterior(have, ins, targets)
        q = (row, ins, None, targets, {}, have)

        def draw(n):
            out = []
            for _ in range(n):
                if rng.random() < .5:
                    self.cgpm.transition(N=1)
                else:
                    self.cgpm.transition(program='transition 1')
                s, _w = self.simulate(op, q, None)
                out.append(tuple(float(s[t]) for t in targets))
            return out
        self.ctx.probe('posterior')
        self.law_test(law, draw, 'row %r with %r after inference' % (row,
            have))


def tail_of(c, n, p):
    if p <= 0:
        return 0. if c else 1.
    if p >= 1:
        return 1. if c == n else 0.
    return stats.binom.sf(c - 1, n, p) if c > p * n \
        else stats.binom.cdf(c, n, p)


class InlineWorld(VsWorld):
    """A component of one inline expression, alone or within a model."""

    def __init__(self, plan, ctx):
        from cgpm.venturescript.vsinline import InlineVsCGpm
        self.cls = InlineVsCGpm
        self.ctx, self.init = ctx, plan['init']
        self.outputs, self.inputs = self.init['outputs'], self.init['inputs']
        self.table = self.init['table']
        self.rows, self.others = {}, []
        self.nseed = self.init['seed']
        self.cgpm = self.build()
        self.state = None

    def build(self, **kw):
        names = 'abcdef'[:len(self.inputs)]
        sp = self.init['space']
        expr = '%s(%s)%s~>%s{%s}' % (sp, (',' + sp).join(names), sp, sp,
            json.dumps(self.table))
        a = dict(outputs=list(self.outputs), inputs=list(self.inputs),
            rng=SimRng(self.nseed), expression=expr)
        a.update(kw)
        return self.cls(**a)

    def check(self, what):
        for r in ripl.WORLD.made:
            self.ctx.check(not r.exprs and not r.directives, 'left-behind',
                lambda: 'after %s the interpreter holds %r and %r' % (what,
                    r.exprs, r.directives))

    def snapshot(self):
        r = self.cgpm.ripl
        return dict(r.exprs), dict(r.directives)

    def law_of(self, ins):
        return dict(ripl.shift(self.table, [float(ins[i])
            for i in self.inputs]))

    def some_inputs(self, rng):
        items = [(i, rng.choice([0, 1, 2, 5])) for i in self.inputs]
        rng.shuffle(items)
        return dict(items)

    def op_inc(self, op, rng):
        self.cgpm.incorporate(rng.randint(0, 3), {self.outputs[0]: 0},
            self.some_inputs(rng))

    def op_uninc(self, op, rng):
        self.cgpm.unincorporate(rng.randint(0, 3))

    def op_transition(self, op, rng):
        self.cgpm.transition(N=2)

    def op_sim(self, op, rng):
        """Densities."""
        ins = self.some_inputs(rng)
        law = self.law_of(ins)
        x = rng.choice(sorted(law) + [57.])
        arg = ins or rng.choice([None, {}])
        what = 'logpdf(%r given %r)' % (x, ins)
        ok, r = self.attempt(op, lambda: self.cgpm.logpdf(0,
            {self.outputs[0]: x}, None, arg), what)
        if ok is None:
            return
        self.ctx.check(ok, 'refused', lambda: '%s: %r' % (what, r))
        p = law.get(x, 0.)
        self.ctx.check(core.close(r, math.log(p) if p > 0
            else -float('inf')), 'density', lambda: '%s is %r, not the log '
            'of %r' % (what, r, p))

    def op_law(self, op, rng):
        ins = self.some_inputs(rng)
        law = self.law_of(ins)
        arg = ins or rng.choice([None, {}])
        what = 'simulate(given %r)' % (ins,)
        o = self.outputs[0]
        ok, r = self.attempt(op, lambda: self.cgpm.simulate(0, [o], None,
            arg, 3), what)
        if ok is not None:
            self.ctx.check(ok and len(r) == 3, 'refused',
                lambda: '%s: %r' % (what, r))
        self.law_test({(v,): p for v, p in law.items()},
            lambda n: [(float(s[o]),) for s in self.cgpm.simulate(0, [o],
                None, arg, n)], what)

    op_posterior = op_law

    def op_badsim(self, op, rng):
        o = self.outputs[0]
        kind = rng.choice(['missing', 'extra', 'constraint', 'target'])
        ins = self.some_inputs(rng)
        t, con = [o], None
        if kind == 'missing':
            if not ins:
                raise world.Skip()
            ins.popitem()
        elif kind == 'extra':
            ins[77] = 0
        elif kind == 'constraint':
            con = {o: 0} if rng.random() < .5 else {78: 1}
        elif kind == 'target':
            t = rng.choice([[79], [], [o, o]])
        before = self.snapshot()
        for f in (lambda: self.cgpm.simulate(0, t, con, ins),
                lambda: self.cgpm.logpdf(0, {c: 0 for c in t}, con, ins)):
            try:
                r = f()
            except Exception as e:
                self.ctx.fault('invalid query: ' + kind)
                self.ctx.check(self.snapshot() == before, 'half-done',
                    lambda: 'a rejected query left %r' % (self.snapshot(),))
                continue
            if t == [o, o]:
                continue
            self.ctx.check(False, 'accepted', lambda: 'a query with %s (%r, '
                '%r, %r) gave %r' % (kind, t, con, ins, r))

    op_badinc = op_badsim

    def op_meta(self, op, rng):
        self.cgpm.to_metadata()

    op_clone = op_meta

    def op_restore(self, op, rng):
        meta = self.cgpm.to_metadata()
        if rng.random() < .5:
            meta = json.loads(json.dumps(meta))
        seed = rng.choice([None, rng.randint(1, 10**6)])
        a, b = self.restored(meta, seed), self.restored(meta, seed)
        self.ctx.fault('restart from metadata')
        o, ins = self.outputs[0], self.some_inputs(rng)
        x = [c.simulate(0, [o], None, ins, 5) for c in (a, b)]
        self.ctx.check(x[0] == x[1], 'restored', lambda: 'two components '
            'restored with the same seed answer %r and %r' % tuple(x))
        if seed is not None and unlike(self.law_of(ins), 80):
            self.ctx.probe('seeds')
            c, d = [self.restored(meta, x) for x in (seed, seed + 1)]
            self.ctx.check(d.simulate(0, [o], None, ins, 80) !=
                c.simulate(0, [o], None, ins, 80), 'restored',
                'components restored with different seeds answer alike')
        self.cgpm = rng.choice([a, b])

    def op_badnew(self, op, rng):
        kind = rng.choice(['outputs', 'inputs', 'none', 'overlap', 'twice'])
        kw = dict(outputs=dict(outputs=self.outputs + [90]),
            inputs=dict(inputs=self.inputs + [91]),
            none=dict(expression=None),
            overlap=dict(inputs=self.inputs[:-1] + self.outputs),
            twice=dict(inputs=self.inputs[:-1] + self.inputs[:1]))[kind]
        if kind == 'twice' and len(self.inputs) < 2 or \
                kind == 'overlap' and not self.inputs:
            raise world.Skip()
        try:
            self.build(**kw)
        except Exception as e:
            self.ctx.fault('invalid component: ' + kind)
            return
        self.ctx.check(False, 'accepted', 'a component built with %r was '
            'accepted' % (kw,))


class ComposedWorld(object):
    """A component composed with a table, through the model's own queries."""

    def __init__(self, plan, ctx):
        self.ctx, self.plan = ctx, plan
        init = plan['init']
        self.init = init
        self.state = world.build(init['state'], SimRng(init['seed']))
        cols = list(self.state.outputs)
        rng = random.Random(init['seed'])
        ins = rng.sample(cols, min(len(cols), init['n_in']))
        self.inputs, self.out = ins, 50
        p = dict(plan, init=dict(init, inputs=ins, outputs=[50]))
        if init['inline']:
            self.w = InlineWorld(p, ctx)
            self.marginal = self.w.table
        else:
            p['init']['program'] = dict(init['program'],
                inputs=['i%d' % i for i in ins])
            self.w = VsWorld(p, ctx)
            P = self.w.program
            n = len(P['tables'][0][0])
            self.marginal = [sum(l * t[v] for l, t in zip(P['latent'],
                P['tables'][0])) for v in range(n)]
        self.token = self.state.compose_cgpm(self.w.cgpm)
        self.rows = {}

    def check(self, what):
        self.w.check(what)

    def apply(self, op):
        f = {'sim': self.op_sim, 'law': self.op_law, 'posterior': self.op_law,
            'inc': self.op_density, 'restore': self.op_restore,
            'transition': self.op_transition}.get(op['op'])
        if f is None:
            raise world.Skip()
        return f(op, random.Random(op['seed']))

    def row(self, rng):
        return rng.choice([None, -1, self.state.n_rows() + 3])

    def residual(self, s):
        n = len(self.marginal)
        sh = int(sum((2 * j + 1) * float(s[i])
            for j, i in enumerate(self.inputs)))
        return (float(s[self.out]) - sh) % n

    def op_sim(self, op, rng):
        """A failing interpreter leaves the model as it was."""
        before = world.fingerprint(self.state)
        k = op.get('fail')
        ripl.WORLD.countdown = k
        n = ripl.WORLD.failed
        try:
            s = self.state.simulate(self.row(rng), [self.out] + self.inputs,
                N=2)
        except ripl.RiplError as e:
            self.ctx.fault('an interpreter call that fails')
            if ripl.WORLD.failed == n:
                raise
        else:
            for x in s:
                r = self.residual(x)
                self.ctx.check(r == int(r) and self.marginal[int(r)] > 0,
                    'impossible-sample', lambda: 'the model gave %r' % (x,))
        ripl.WORLD.countdown = None
        self.ctx.check(world.fingerprint(self.state) == before, 'half-done',
            'a query changed the model')

    def op_law(self, op, rng):
        row = self.row(rng)
        con = {}
        if rng.random() < .5:
            con = {i: world.cell(self.types(i)[0], self.types(i)[1],
                rng.random()) for i in self.inputs if rng.random() < .5}
        tgt = [self.out] + [i for i in self.inputs if i not in con]
        what = 'simulate(%r, %r, %r) of the composed model' % (row, tgt, con)

        def draw(n):
            return [self.residual(merged(s, con)) for s in
                self.state.simulate(row, tgt, con or None, N=n)]
        law = {float(v): p for v, p in enumerate(self.marginal)}
        for n, level in ((100, 1e-3), (1000, 1e-11)):
            got = {}
            for v in draw(n):
                got[v] = got.get(v, 0) + 1
            tail, v = min((tail_of(got.get(v, 0), n, p), v)
                for v, p in law.items())
            if tail > level / len(law):
                return
        self.ctx.check(False, 'law', lambda: '%s: %d of %d residuals are %r, '
            'whose probability is %.5f' % (what, got.get(v, 0), n, v, law[v]))

    def types(self, i):
        c = self.init['state']['cols'][list(self.state.outputs).index(i)]
        return c['cctype'], c['distargs']

    def op_density(self, op, rng):
        if not self.init['inline']:
            raise world.Skip()
        x = {i: world.cell(self.types(i)[0], self.types(i)[1], rng.random())
            for i in self.inputs}
        law = self.w.law_of(x)
        y = rng.choice(sorted(law))
        row = self.row(rng)
        got = self.state.logpdf(row, merged(x, {self.out: y}))
        base = self.state.logpdf(row, x) if x else 0.
        p = law[y]
        want = base + math.log(p) if p > 0 else -float('inf')
        self.ctx.check(core.close(got, want), 'density', lambda: 'the log '
            'density of %r and %r is %r, not %r' % (x, y, got, want))

    def op_transition(self, op, rng):
        self.state.transition(N=1, progress=False)

    def op_restore(self, op, rng):
        """The model with its component restarts from metadata."""
        meta = self.state.to_metadata()
        if rng.random() < .5:
            meta = json.loads(json.dumps(meta))
        st = type(self.state).from_metadata(meta, rng=SimRng(op['seed']))
        self.ctx.fault('restart from metadata')
        self.ctx.check(list(st.hooked_cgpms) == list(self.state.hooked_cgpms),
            'restored', lambda: 'hooked components %r, before %r' % (
                list(st.hooked_cgpms), list(self.state.hooked_cgpms)))
        self.state = st
        self.w.cgpm = st.hooked_cgpms[self.token]


def unlike(law, n):
    """Can two samples of n be the same by chance only in theory?"""
    return n * math.log(sum(p * p for p in law.values())) < -30


def merged(a, b):
    d = dict(a)
    d.update(b)
    return d


class P23(core.Prop):
    id = 'P23'
    runs = {'quick': 10000, 'thorough': 300000}
    wall = {'quick': 40., 'thorough': 780.}
    real = ['cgpm.venturescript.vscgpm', 'cgpm.venturescript.vsinline',
        'cgpm.network.*', 'cgpm.crosscat.state (for composed components)',
        'cgpm.utils.*']
    stub = ['venture: a simulated interpreter of finite programs']
    rule = ('one evaluation = one simulated run (random program, random '
        'history of operations, one seed); distinct = distinct event-log '
        'digests of runs that executed at least two operations')
    assumptions = ['the interpreter holds the conditioning cells named by '
        'its directives, exact Gibbs is its inference, and forgetting never '
        'fails', 'cells a client left unobserved carry no memory across '
        'queries', 'sample laws alarm at 1e-11 in a sample of 3000 only']

    def prepare(self):
        ripl.install()
        import cgpm.crosscat.state
        import cgpm.venturescript.vscgpm
        import cgpm.venturescript.vsinline
        from cgpm.utils import config
        for t in world.PRIMITIVE:
            config.cctype_class(t)

    def gen(self, rng, tier):
        kind = rng.choices(['vs', 'inline', 'composed'], [8, 2, 1.5])[0]
        ids = rng.sample(range(12), 8)
        n_out, n_in = rng.randint(1, 3), rng.choice([0, 1, 1, 2, 3])
        if kind != 'vs':
            n_out = 1
        init = dict(kind=kind, outputs=ids[:n_out],
            inputs=ids[n_out:n_out + n_in], seed=rng.randint(1, 10**9),
            mode=rng.choice(['church_prime', 'venture_script']),
            plugins=rng.choice([None, None, 'a', 'a, b']),
            clock=rng.choice(['run', 'run', 'still', 'back', 'coarse']))
        init['program'] = gen_program(rng, n_in, n_out,
            ['i%d' % i for i in init['inputs']])
        init['table'] = init['program']['tables'][0][0]
        init['space'] = rng.choice(['', ' ', '\n  '])
        if kind == 'composed':
            init['state'] = world.gen_init(rng, ['categorical', 'bernoulli'],
                cols=(1, 3), rows=(2, 6))
            init['n_in'] = n_in
            init['inline'] = rng.random() < .6
        ops = []
        hi = rng.choice([4, 14, 30] if tier == 'quick' else [4, 14, 30, 80])
        if kind == 'composed':
            hi = 4
        for _ in range(rng.randint(1, hi)):
            k = rng.choices(list(KINDS), list(KINDS.values()))[0]
            op = dict(op=k, seed=rng.randint(1, 10**9))
            if rng.random() < .3:
                op['fail'] = rng.randint(0, 6 if k in ('sim', 'inc') else 2)
            ops.append(op)
        return dict(init=init, ops=ops)

    def shrink(self, plan):
        for i, op in enumerate(plan['ops']):
            if op.get('fail') is not None:
                ops = list(plan['ops'])
                ops[i] = dict(op, fail=None)
                yield dict(plan, ops=ops)
        init = plan['init']
        for k, v in (('clock', 'run'), ('plugins', None), ('space', '')):
            if init[k] != v:
                yield dict(plan, init=dict(init, **{k: v}))

    def execute(self, plan, ctx):
        init = plan['init']
        ripl.WORLD.reset(init['seed'])
        clock = simclock.Clock(tick={'run': 1.3e-3, 'still': 0.,
            'back': 1e-3, 'coarse': 0.}[init['clock']])
        ripl.WORLD.clock = clock
        if init['clock'] == 'back':
            jump = random.Random(init['seed'])
            def on_read(c):
                if jump.random() < .2:
                    c.now -= jump.choice([1e-3, 1., 3600.])
            clock.on_read = on_read
        with simclock.using(clock):
            w = dict(vs=VsWorld, inline=InlineWorld,
                composed=ComposedWorld)[init['kind']](plan, ctx)
            w.check('construction')
            for op in plan['ops']:
                if init['clock'] == 'coarse':
                    clock.advance(.015)
                try:
                    r = w.apply(op)
                except world.Skip:
                    ctx.log('skip', op['op'])
                    continue
                ctx.ops += 1
                ctx.log(op['op'], repr(r)[:200])
                ctx.probe('%s-%s' % (init['kind'], op['op']))
                w.check(op['op'])
                s = sorted((k, sorted(v[1])) for k, v in w.rows.items())
                ctx.state((init['kind'], s))
        if init['clock'] != 'run':
            ctx.fault('a clock that stands still' if init['clock'] in (
                'still', 'coarse') else 'a clock that jumps back')
        ctx.simtime += abs(clock.now - clock.start) + ctx.ops


PROP = P23()
