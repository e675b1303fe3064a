"""P01: parallel map equals sequential map, never hangs, leaks nothing.

The whole of utils/parallel_map.py runs over simulated processes, pipes,
select and clock: the plan decides every interleaving (a preemption list),
which worker dies at which of its own steps, which fork or pipe call fails,
which worker stalls, and when the caller is interrupted.
"""

import pickle
import random

from .. import core, simproc

OK_KINDS = ['ok', 'ok', 'ok', 'none', 'slow', 'big', 'huge', 'tuple', 'mutate']
BAD_KINDS = ['raise', 'raise', 'assert', 'stopiter', 'exit0', 'exit3', '_exit',
    'interrupt', 'unpick_pe', 'unpick_te', 'unpick_other', 'badload']


class UnpickPE(object):
    def __reduce__(self):
        raise pickle.PicklingError('cannot pickle')


class UnpickTE(object):
    def __reduce__(self):
        raise TypeError("can't pickle this object")


class UnpickOther(object):
    def __reduce__(self):
        raise RuntimeError('reduce failed')


def _boom():
    raise ValueError('cannot rebuild')


class BadLoad(object):
    def __reduce__(self):
        return (_boom, ())


def expected(kind, v, cap):
    if kind in ('ok', 'slow', 'mutate'):
        return ('r', v * v + 7)
    if kind == 'none':
        return None
    if kind == 'tuple':
        return (v, False, [v])
    if kind == 'big':
        return b'x' * (cap // 2 + v)
    if kind == 'huge':
        return b'y' * (2 * cap + v)
    return None


class Work(object):
    """The function being mapped; its calls are visible from outside."""

    def __init__(self, sim, rec, cap):
        self.sim, self.rec, self.cap = sim, rec, cap

    def __deepcopy__(self, memo):
        return self

    def __call__(self, x):
        idx, kind, v = x[:3]
        self.rec.calls.append(idx)
        self.sim.point('f')
        if kind == 'slow':
            for _ in range(v % 4 + 1):
                self.sim.point('f')
        if kind == 'nested':
            from cgpm.utils import parallel_map as pm
            return pm.parallel_map(lambda y: y + v, [1, 2, 3], parallelism=2)
        if kind == 'mutate':
            x[3].append(v)
            if len(x[3]) != 1:
                return 'saw a mutation of another worker'
        if kind == 'raise':
            raise ValueError('bad \xe9 %d' % v)
        if kind == 'assert':
            assert False
        if kind == 'stopiter':
            raise StopIteration()
        if kind == 'exit0':
            raise SystemExit()
        if kind == 'exit3':
            raise SystemExit(3)
        if kind == '_exit':
            simproc.OS._exit(0)
        if kind == 'interrupt':
            raise KeyboardInterrupt()
        cls = {'unpick_pe': UnpickPE, 'unpick_te': UnpickTE,
            'unpick_other': UnpickOther, 'badload': BadLoad}.get(kind)
        if cls is not None:
            return cls()
        return expected(kind, v, self.cap)


def gen_sched(rng, n):
    style = rng.choice(['none', 'sparse', 'random', 'random', 'starve'])
    if style == 'none':
        return []
    if style == 'sparse':
        s = [0] * n
        for _ in range(rng.randint(1, 6)):
            s[rng.randrange(n)] = rng.randint(1, 6)
        return s
    if style == 'starve':
        k = rng.randint(1, 6)
        return [k if rng.random() < .8 else 0 for _ in range(n)]
    return [rng.randint(0, 6) for _ in range(n)]


class P01(core.Prop):
    id = 'P01'
    rule = ('a run with at least two elements mapped by at least two workers, '
        'or with a fault which fired')
    runs = {'quick': 12000, 'thorough': 400000}
    wall = {'quick': 40.0, 'thorough': 780.0}
    run_timeout = 30
    real = ['utils/parallel_map.py']
    stub = ['multiprocessing (Process, Pipe, cpu_count), os pipe/read/write, '
        'select, time: simulated processes with fork-copied memory']
    assumptions = [
        'forked memory is modelled by a deep copy of what the target can '
        'reach; module globals stay shared',
        'pipes keep 4 KiB atomic writes and EOF/EPIPE semantics of Linux']

    def prepare(self):
        from .. import py2load
        py2load.install()
        from cgpm.utils import parallel_map as pm
        simproc.install(pm)
        self.pm = pm

    def gen(self, rng, tier):
        ops = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            n = rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 10])
            w = rng.choice([None] * 4 + [1, 1, 2, 2, 3, 4, 6] * 3 + [0])
            items = [[rng.choice(OK_KINDS), rng.randint(0, 9)]
                for _ in range(n)]
            faults = []
            mode = rng.choice(['none', 'none', 'bad', 'kill', 'sys', 'mix',
                'nested'])
            if n and mode in ('bad', 'mix'):
                for _ in range(rng.choice([1, 1, 2])):
                    items[rng.randrange(n)][0] = rng.choice(BAD_KINDS)
            if n and mode == 'nested':
                items[rng.randrange(n)][0] = 'nested'
            W = w or 3
            if mode in ('kill', 'mix'):
                for _ in range(rng.choice([1, 1, 2])):
                    faults.append(dict(kind='kill', worker=rng.randrange(W),
                        at=rng.randint(1, 14)))
            if mode in ('sys', 'mix'):
                k = rng.choice(['forkfail', 'pipefail', 'interrupt', 'none'])
                if k == 'forkfail':
                    faults.append(dict(kind=k, n=rng.randint(1, W)))
                elif k == 'pipefail':
                    faults.append(dict(kind=k, n=rng.randint(1, 2 * W + 1)))
                elif k == 'interrupt' and mode == 'sys':
                    faults.append(dict(kind=k, at=rng.randint(1, 2 * n + 2)))
            if rng.random() < .3:
                faults.append(dict(kind='stall', worker=rng.randrange(W),
                    at=rng.randint(1, 10), steps=rng.randint(5, 60)))
            ops.append(dict(w=w, items=items, faults=faults,
                seq=rng.choice(['list', 'list', 'tuple']),
                sched=gen_sched(rng, rng.choice([20, 60, 150]))))
        return dict(ops=ops, ncpu=rng.randint(1, 5),
            cap=rng.choice([4096, 65536]))

    def shrink(self, plan):
        for i, op in enumerate(plan['ops']):
            def sub(**k):
                ops = list(plan['ops'])
                ops[i] = dict(op, **k)
                return dict(plan, ops=ops)
            for j in range(len(op['faults'])):
                yield sub(faults=op['faults'][:j] + op['faults'][j+1:])
            for j in range(len(op['items'])):
                yield sub(items=op['items'][:j] + op['items'][j+1:])
            for j, it in enumerate(op['items']):
                if it[0] not in ('ok',):
                    yield sub(items=op['items'][:j] + [['ok', it[1]]]
                        + op['items'][j+1:])
            s = op['sched']
            if s:
                yield sub(sched=[])
                yield sub(sched=s[:len(s) // 2])
                yield sub(sched=s[:-1])
                for j, c in enumerate(s):
                    if c:
                        yield sub(sched=s[:j] + [0] + s[j+1:])
            if op['w'] is None or op['w'] > 1:
                yield sub(w=1)

    def nontrivial(self, plan, ctx):
        return ctx.probes.get('parallel', 0) > 0 or bool(ctx.faults)

    def execute(self, plan, ctx):
        for k, op in enumerate(plan['ops']):
            self.one(plan, op, ctx, k)

    def one(self, plan, op, ctx, k):
        rec = simproc.Recorder()
        items = [[i, it[0], it[1], []] for i, it in enumerate(op['items'])]
        if op['seq'] == 'tuple':
            items = tuple(items)
        cap = plan['cap']
        want = [expected(it[0], it[1], cap) if it[0] != 'nested'
            else [1 + it[1], 2 + it[1], 3 + it[1]] for it in op['items']]
        bad = [it[0] for it in op['items'] if it[0] in BAD_KINDS]
        n, W = len(items), plan['ncpu'] if op['w'] is None else op['w']
        ctx.ops += 1
        if n >= 2 and W >= 2:
            ctx.probe('parallel')
        limit = 4000 + 400 * (n + W) * (1 + max(
            [0] + [len(w) for w in want if isinstance(w, bytes)]) // 4096)
        with simproc.Simulation(sched=op['sched'], ncpu=plan['ncpu'], cap=cap,
                faults=[dict(f) for f in op['faults']], ctx=ctx,
                max_steps=limit) as sim:
            f = Work(sim, rec, cap)
            res = err = None
            try:
                res = self.pm.parallel_map(f, items, parallelism=op['w'])
            except (simproc.Deadlock, simproc.StepLimit):
                pass
            except KeyboardInterrupt as e:
                err = e
            except Exception as e:
                err = e
            ctx.log('map', k, n, op['w'], None if err is None
                else type(err).__name__, sim.steps)
            for it in op['items']:
                if it[0] in BAD_KINDS and it[0] not in ('ok',):
                    ctx.fault('call-' + it[0])
            ctx.state((n, W, sim.switches, len(rec.calls),
                type(err).__name__, tuple(sorted(f['kind']
                    for f in sim.fired))))
            ctx.simtime += sim.steps * 1e-3
            where = 'n=%d workers=%r items=%r faults fired=%r' % (
                n, op['w'], op['items'], sim.fired)
            ctx.check(sim.deadlocked is None, 'hang',
                lambda: 'the map hangs: every process is blocked %r; %s' % (
                    sim.deadlocked, where))
            ctx.check(not sim.limit, 'no-progress',
                lambda: 'no result after %d steps; %s' % (sim.steps, where))
            alive = [p.pid for p in sim.workers() if p.alive]
            ctx.check(not alive, 'worker-left',
                lambda: '%d workers still run after the map ended; %s' % (
                    len(alive), where))
            leaks = sim.leaks()
            ctx.check(not leaks, 'pipe-left',
                lambda: '%d pipe ends are still open after the map ended; %s'
                    % (len(leaks), where))
            disturbing = [f for f in sim.fired if f['kind'] != 'stall']
            if err is None:
                ctx.check(not bad, 'error-lost',
                    lambda: 'a failing call went unnoticed: returned %.300r; '
                    '%s' % (res, where))
                ctx.check(isinstance(res, list), 'not-a-list',
                    lambda: 'returned %r; %s' % (type(res), where))
                ctx.check(res == want, 'wrong-result',
                    lambda: 'returned %.400r, a sequential map gives %.400r; '
                    '%s' % (res, want, where))
                ctx.check(sorted(rec.calls) == list(range(n)), 'call-count',
                    lambda: 'elements called %r; %s' % (rec.calls, where))
            else:
                ctx.check(bad or disturbing or W < 1, 'spurious-error',
                    lambda: 'raised %s %s although no call failed; %s' % (
                        type(err).__name__, err, where))
                if not isinstance(err, KeyboardInterrupt):
                    ctx.probe('error-raised')
                ctx.check(len(set(rec.calls)) == len(rec.calls), 'call-count',
                    lambda: 'elements called %r; %s' % (rec.calls, where))


PROP = P01()
