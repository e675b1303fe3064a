"""Seeded-simulation framework: runs, event log, minimisation, replay, evidence.

One integer decides a run: plan = gen(Random(seed)), and executing a plan is a
pure function of the plan and the code under test.  A plan is JSON and is what
a replay file stores.
"""

import collections
import hashlib
import io
import json
import math
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL_TIME = time.time


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, cls, msg):
        Exception.__init__(self, '%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


class RunTimeout(BaseException):
    """The wall-clock guard of one run fired (the run is too long)."""


class Ctx(object):
    """Everything a run reports.  Never draws randomness, never reads a clock."""

    def __init__(self, keep_trace=False):
        self.h = hashlib.sha256()
        self.n_events = 0
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.ops = 0
        self.checks = 0
        self.simtime = 0.0
        self.known = []
        self.trace = [] if keep_trace else None

    def log(self, *event):
        s = repr(event)
        self.h.update(s.encode('utf-8'))
        self.n_events += 1
        if self.trace is not None:
            self.trace.append(s[:400])

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.log('fault', kind)

    def probe(self, name):
        self.probes[name] += 1

    def state(self, obj):
        d = hashlib.md5(repr(obj).encode('utf-8')).hexdigest()[:12]
        self.states.add(d)

    def check(self, ok, cls, msg):
        self.checks += 1
        if not ok:
            raise Violation(cls, msg() if callable(msg) else msg)

    def digest(self):
        return self.h.hexdigest()[:24]


def close(a, b, rtol=1e-6, atol=1e-6):
    if a is None or b is None:
        return a is b
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def differ(a, b, rtol=1e-6, atol=1e-6, path=''):
    """First difference between two nested structures, or None."""
    import numpy as np
    if isinstance(a, (np.ndarray,)):
        a = a.tolist()
    if isinstance(b, (np.ndarray,)):
        b = b.tolist()
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return '%s: %r vs %r' % (path, a, b)
        ka, kb = set(a), set(b)
        if ka != kb:
            return '%s: keys differ, only left %r, only right %r' % (
                path, sorted(map(repr, ka - kb))[:6],
                sorted(map(repr, kb - ka))[:6])
        for k in a:
            d = differ(a[k], b[k], rtol, atol, '%s.%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
            return '%s: %r vs %r' % (path, a, b)
        if len(a) != len(b):
            return '%s: lengths %d vs %d: %.150r vs %.150r' % (
                path, len(a), len(b), a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, rtol, atol, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    num = (int, float, np.number, np.bool_)
    if isinstance(a, num) and isinstance(b, num):
        return None if close(a, b, rtol, atol) else '%s: %r vs %r' % (path, a, b)
    return None if a == b else '%s: %.200r vs %.200r' % (path, a, b)


def in_repo(tb):
    """Does any frame of the traceback belong to the code under test?"""
    from . import py2load
    src = os.path.join(py2load.REPO, 'src') + os.sep
    return any(f.filename.startswith(src) for f in traceback.extract_tb(tb))


class Prop(object):
    """Base class of a simulation deciding one property."""

    id = None
    technique = 'deterministic simulation with fault injection'
    rule = ''
    runs = {'quick': 400, 'thorough': 20000}
    wall = {'quick': 45.0, 'thorough': 800.0}
    run_timeout = 60
    selfcheck = 0.  # share of runs with the model's own checks turned on
    real = []
    stub = []
    assumptions = []

    def prepare(self):
        """Import what is needed (once, before workers are forked)."""

    def gen(self, rng, tier):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def nontrivial(self, plan, ctx):
        return ctx.ops >= 2

    def shrink(self, plan):
        """Candidate simpler plans, other than dropping ops."""
        return ()


def run_plan(prop, plan, keep_trace=False):
    """Execute; returns (ctx, violation or None, harness error or None)."""
    import numpy as np
    import warnings
    ctx = Ctx(keep_trace)
    np.random.seed(987654321)
    random.seed(987654321)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(prop.run_timeout)
    out, err = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            if plan.get('selfcheck'):
                os.environ['GPMCCDEBUG'] = '1'
                ctx.probe('selfcheck')
            prop.execute(plan, ctx)
        return ctx, None, None
    except Violation as v:
        ctx.log('violation', v.cls)
        return ctx, (v.cls, v.msg), None
    except RunTimeout:
        return ctx, ('no-progress',
            'the run did not finish within %d s of wall time'
            % prop.run_timeout), None
    except Exception as e:
        tb = traceback.format_exc()
        if in_repo(sys.exc_info()[2]):
            fr = [f for f in traceback.extract_tb(sys.exc_info()[2])]
            last = [f for f in fr if '/src/' in f.filename][-1]
            cls = 'unexpected-%s' % (type(e).__name__,)
            ctx.log('violation', cls)
            return ctx, (cls, '%s at %s:%s\n%s' % (
                e, os.path.basename(last.filename), last.name,
                tb[-1500:])), None
        return ctx, None, tb
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout = out
        if plan.get('selfcheck'):
            os.environ.pop('GPMCCDEBUG', None)


def _alarm(signum, frame):
    raise RunTimeout()


def run_seed(prop, seed, index, tier):
    s = int(hashlib.sha256(('%s/%d/%d' % (
        prop.id, seed, index)).encode()).hexdigest()[:15], 16)
    plan = prop.gen(random.Random(s), tier)
    plan = json.loads(json.dumps(plan))
    if random.Random(s + 1).random() < prop.selfcheck:
        plan['selfcheck'] = True
    return s, plan


# --------------------------------------------------------------------------
# Known findings

def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.isfile(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def match_known(prop_id, viol, known):
    cls, msg = viol
    for k in known:
        if k['property'] != prop_id or k.get('status') == 'fixed':
            continue
        if k['cls'] == cls and all(s in msg for s in k.get('contains', [])):
            return k
    return None


# --------------------------------------------------------------------------
# Minimisation

def minimise(prop, plan, cls, budget_s=40.0, known=()):
    deadline = REAL_TIME() + budget_s
    tried = [0]

    def fails(p):
        if REAL_TIME() > deadline:
            return False
        tried[0] += 1
        try:
            p = json.loads(json.dumps(p))
            _c, v, e = run_plan(prop, p)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            return False
        return v is not None and v[0] == cls \
            and match_known(prop.id, v, known) is None

    changed = True
    while changed and REAL_TIME() < deadline:
        changed = False
        for key in ('ops', 'faults'):
            seq = plan.get(key)
            if not isinstance(seq, list) or not seq:
                continue
            n = max(1, len(seq) // 2)
            while n >= 1 and REAL_TIME() < deadline:
                i = 0
                while i < len(plan[key]):
                    cand = dict(plan)
                    cand[key] = plan[key][:i] + plan[key][i + n:]
                    if fails(cand):
                        plan = cand
                        changed = True
                    else:
                        i += n
                n //= 2
        again = True
        while again and REAL_TIME() < deadline:
            again = False
            for cand in prop.shrink(plan):
                if REAL_TIME() > deadline:
                    break
                if fails(cand):
                    plan = cand
                    again = changed = True
                    break
    return plan, tried[0]


# --------------------------------------------------------------------------
# Batch

def _worker(prop, seed, tier, q_in, q_out, stop, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while not stop.is_set():
        try:
            lo, hi = q_in.get(timeout=0.5)
        except Exception:
            break
        out = []
        for i in range(lo, hi):
            if stop.is_set() or REAL_TIME() > deadline:
                break
            try:
                s, plan = run_seed(prop, seed, i, tier)
                ctx, v, e = run_plan(prop, plan)
            except Exception:
                ctx, v, e = Ctx(), None, traceback.format_exc()
                plan, s = None, None
            out.append(dict(i=i, seed=s, digest=ctx.digest(), ops=ctx.ops,
                checks=ctx.checks, faults=dict(ctx.faults),
                probes=dict(ctx.probes), states=list(ctx.states),
                simtime=ctx.simtime, events=ctx.n_events, known=ctx.known,
                nontrivial=bool(plan is not None
                    and prop.nontrivial(plan, ctx)),
                viol=v, err=e, plan=plan if (v or e or i < 3) else None))
            if v:
                break
        q_out.put(out)
    q_out.put(None)


def batch(prop, seed, tier, jobs, runs=None, wall=None):
    """Run a batch of seeds on `jobs` processes; results sorted by index."""
    runs = runs or prop.runs[tier]
    wall = wall or prop.wall[tier]
    start = REAL_TIME()
    deadline = start + wall
    mp = multiprocessing.get_context('fork')
    q_in, q_out, stop = mp.Queue(), mp.Queue(), mp.Event()
    chunk = max(1, min(50, runs // (jobs * 8)))
    for lo in range(0, runs, chunk):
        q_in.put((lo, min(runs, lo + chunk)))
    ps = [mp.Process(target=_worker,
        args=(prop, seed, tier, q_in, q_out, stop, deadline))
        for _ in range(jobs)]
    for p in ps:
        p.start()
    known = load_known()
    results, done = [], 0
    grace = prop.run_timeout + 30
    while done < jobs:
        try:
            out = q_out.get(timeout=1.0)
        except Exception:
            if not any(p.is_alive() for p in ps) and q_out.empty():
                break
            if REAL_TIME() > deadline + grace:
                break
            continue
        if out is None:
            done += 1
            continue
        results.extend(out)
        if any(r['viol'] and match_known(prop.id, r['viol'], known) is None
                for r in out):
            stop.set()
    for p in ps:
        p.join(timeout=2)
        if p.is_alive():
            p.kill()
            p.join()
    q_in.cancel_join_thread()
    q_out.cancel_join_thread()
    results.sort(key=lambda r: r['i'])
    return results, REAL_TIME() - start


def evidence(prop, tier, seed, results, wall, jobs, violations, known_hits):
    faults, probes = collections.Counter(), collections.Counter()
    states, digests = set(), set()
    ops = checks = events = 0
    simtime = 0.0
    for r in results:
        faults.update(r['faults'])
        probes.update(r['probes'])
        states.update(r['states'])
        ops += r['ops']
        checks += r['checks']
        events += r['events']
        simtime += r['simtime']
        if r['nontrivial']:
            digests.add(r['digest'])
    ev = dict(
        property=prop.id, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=len(results),
            distinct_nontrivial=len(digests),
            rule=prop.rule,
            samples=[r['plan'] for r in results if r['plan']][:2],
            simulated_runs=len(results),
            seeds_per_hour=int(len(results) / max(wall, 1e-6) * 3600),
            operations=ops, oracle_checks=checks, events=events,
            simulated_seconds=round(simtime, 3),
            faults_injected=dict(sorted(faults.items())),
            probes=dict(sorted(probes.items())),
            distinct_states=len(states),
            distinct_states_measure='distinct fingerprints of the model '
                'structure (or scheduler state) reached after an operation',
            distinct_histories=len(set(r['digest'] for r in results)),
            worker_processes=jobs,
            real_components=prop.real, stub_components=prop.stub,
            known_findings_hit=known_hits),
        assumptions=list(prop.assumptions),
        wall_s=round(wall, 2), violations=violations)
    path = os.path.join(VERIF, 'evidence', prop.id + '.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(path + '.tmp', path)
    return ev


def main_check(prop, tier, seed, jobs, runs=None, wall=None):
    print('check property=%s tier=%s seed=%d jobs=%d' % (
        prop.id, tier, seed, jobs))
    prop.prepare()
    sys.stdout.flush()
    results, wall_s = batch(prop, seed, tier, jobs, runs, wall)
    known = load_known()
    known_hits = {}
    viol = err = None
    for r in results:
        for fid in r['known']:
            known_hits[fid] = known_hits.get(fid, 0) + 1
        if r['viol']:
            k = match_known(prop.id, r['viol'], known)
            if k is not None:
                known_hits[k['id']] = known_hits.get(k['id'], 0) + 1
            elif viol is None:
                viol = r
        if r['err'] and err is None:
            err = r
    evidence(prop, tier, seed, results, wall_s, jobs,
        0 if viol is None else 1, known_hits)
    if viol is not None:
        cls, msg = viol['viol']
        print('run %d (seed %s) failed: %s: %s' % (
            viol['i'], viol['seed'], cls, msg))
        sys.stdout.flush()
        small, tried = minimise(prop, viol['plan'], cls, known=known)
        ctx, v, _e = run_plan(prop, small, keep_trace=True)
        if v is None:
            small = viol['plan']
            ctx, v, _e = run_plan(prop, small, keep_trace=True)
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (prop.id, viol['i']))
        with open(path, 'w') as f:
            json.dump(dict(property=prop.id, cls=cls,
                message=v[1] if v else msg, verif_seed=seed,
                run=viol['i'], run_seed=viol['seed'], plan=small,
                digest=ctx.digest(), minimise_trials=tried,
                trace=ctx.trace), f, indent=1)
        p = subprocess.run([sys.executable, '-W', 'ignore',
            os.path.join(VERIF, 'check.py'), prop.id, '--replay', path],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print('minimised to %s ops in %d trials: %s' % (
            len(small.get('ops', [])), tried, v[1] if v else '(unstable)'))
        print('replay in a fresh process reproduces: %s' % (
            p.returncode == 1,))
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    if err is not None:
        print('HARNESS ERROR in run %d (seed %s):\n%s' % (
            err['i'], err['seed'], err['err']))
        return 3
    for k in known:
        if k['property'] == prop.id and k.get('status') != 'fixed':
            print('KNOWN-FINDING: property=%s %s (met %d times)' % (
                prop.id, k['what'], known_hits.get(k['id'], 0)))
    if not results:
        print('HARNESS ERROR: no run completed')
        return 3
    print('held on %d runs in %.1f s' % (len(results), wall_s))
    return 0


def main_replay(prop, path):
    prop.prepare()
    with open(path) as f:
        rec = json.load(f)
    ctx, v, e = run_plan(prop, rec['plan'], keep_trace=True)
    if e:
        print(e)
        return 3
    if v is None:
        print('replay of %s: property held' % (path,))
        return 0
    print('%s: %s' % v)
    print('digest %s (recorded %s)' % (ctx.digest(), rec.get('digest')))
    print('VIOLATION property=%s replay=%s' % (prop.id, path))
    return 1
