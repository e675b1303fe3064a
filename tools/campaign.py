"""campaign.py N SEED [--files a,b] [--out F]: random mutants against the checks.

Each mutant is loaded in a fresh interpreter, which runs a few hundred seeds
of every property until one reports a violation."""
import ast
import json
import os
import random
import subprocess
import sys
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
REPO = os.environ.get('CGPM_REPO', '/repo')
FIRST = {'utils/parallel_map.py': ['P01', 'P02'], 'crosscat/engine.py':
    ['P02', 'P18', 'P17', 'P10'], 'mixtures/relevance.py': ['P17'],
    'crosscat/loomcat.py': ['P16'], 'crosscat/lovecat.py': ['P16', 'P08'],
    'crosscat/sampling.py': ['P13'], 'crosscat/state.py': ['P04', 'P09', 'P19'],
    'utils/sampling.py': ['P22'], 'utils/render.py': ['P21'],
    'utils/plots.py': ['P21'], 'utils/timer.py': ['P11'],
    'venturescript/vscgpm.py': ['P23'], 'venturescript/vsinline.py': ['P23'],
    'network': ['P14', 'P13'], 'regressions': ['P15', 'P05', 'P04', 'P09'],
    'dummy': ['P20', 'P14'], 'factor': ['P20', 'P15'], 'kde': ['P20', 'P15'],
    'knn': ['P20', 'P15'], 'venturescript': ['P15'], 'uncorrelated': ['P20'],
    'primitives': ['P05', 'P09', 'P13'], 'mixtures': ['P04', 'P05', 'P09']}
ALL = ['P%02d' % i for i in range(1, 23) if i != 21]
N_RUNS = {'P01': 60, 'P02': 60, 'P03': 40, 'P18': 60, 'P11': 120, 'P09': 200,
    'P13': 100, 'P14': 150, 'P16': 150, 'P20': 250, 'P19': 100, 'P22': 80, 'P23': 2000}


def order(rel):
    first = []
    rest = ALL
    if rel.startswith(('dummy', 'factor', 'kde', 'knn', 'venture')):
        rest = ['P20', 'P15', 'P14', 'P03', 'P12', 'P10']
    if rel.startswith('venture'):
        rest = []
    elif rel.startswith(('primitives', 'regressions')):
        rest = ['P05', 'P09', 'P13', 'P04', 'P06', 'P10', 'P20', 'P15', 'P03', 'P07',
            'P22']
    elif rel.startswith(('crosscat/l', 'mixtures/rel', 'uncor')):
        rest = ['P16', 'P08', 'P02', 'P10', 'P17', 'P12', 'P03']
    elif rel.startswith('network'):
        rest = ['P14', 'P13', 'P12', 'P03']
    elif not rel.startswith('utils'):
        rest = ALL[1:]
    for k in sorted(FIRST, key=len, reverse=True):
        if rel.startswith(k):
            first = FIRST[k]
            break
    return first + [p for p in rest if p not in first]


def one(spec):
    """In a fresh interpreter with DST_MUTANT set."""
    import importlib
    from dst import core, py2load
    py2load.install(REPO)
    import multiprocessing
    t0 = time.time()
    errs = {}
    for pid in order(spec.rpartition(':')[0]):
        try:
            P = importlib.import_module('dst.props.' + pid.lower()).PROP
            P.prepare()
        except Exception as e:
            print(json.dumps(dict(spec=spec, prop=pid, cls='prepare',
                msg=repr(e)[:200], t=time.time() - t0)))
            return
        P.run_timeout = 20
        t1 = time.time()
        for i in range(N_RUNS.get(pid, 150)):
            if time.time() - t1 > 12:
                break
            try:
                s, plan = core.run_seed(P, 1, i, 'quick')
                ctx, v, e = core.run_plan(P, plan)
            except Exception as ex:
                v, e = None, repr(ex)
            if v:
                print(json.dumps(dict(spec=spec, prop=pid, cls=v[0], run=i,
                    msg=v[1][:300], t=time.time() - t0, errs=errs)))
                sys.stdout.flush()
                os._exit(0)
            if e:
                errs.setdefault(pid, e.strip().splitlines()[-1][:150])
    print(json.dumps(dict(spec=spec, prop=None, t=time.time() - t0,
        errs=errs)))
    sys.stdout.flush()
    os._exit(0)


def main():
    from dst import mutants, py2load
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    out = sys.argv[sys.argv.index('--out') + 1]
    only = sys.argv[sys.argv.index('--files') + 1].split(',') \
        if '--files' in sys.argv else None
    src = REPO + '/src'
    pool, desc = [], {}
    for d, _s, fs in sorted(os.walk(src)):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), src)
            if not f.endswith('.py') or f == '__init__.py':
                continue
            if only and not any(rel.startswith(o) for o in only):
                continue
            if any(x in rel for x in ('plots', 'render', 'inventory',
                    'entropy_', 'test.py', 'statedoc', 'mvnormal',
                    'uncorrelated')) and not only:
                continue
            text = open(os.path.join(src, rel)).read()
            tree = ast.parse(py2load._refactor(text + '\n', rel))
            for k, (line, what, _f) in enumerate(mutants.sites(tree)):
                spec = '%s:%d' % (rel, k)
                pool.append(spec)
                desc[spec] = 'line %d: %s' % (line, what)
    print(len(pool), 'mutants')
    done = set()
    if os.path.exists(out):
        done = set(json.loads(l)['spec'] for l in open(out))
    random.Random(seed).shuffle(pool)
    todo = [s for s in pool[:n] if s not in done]
    running = []
    log = open(out, 'a')
    env = dict(os.environ, PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1',
        OMP_NUM_THREADS='1', MPLBACKEND='pdf', PYTHONDONTWRITEBYTECODE='1',
        CGPM_PY2_CACHE='/tmp/py2cache')
    os.makedirs('/tmp/py2cache', exist_ok=True)
    jobs = int(os.environ.get('JOBS', '8'))
    while todo or running:
        while todo and len(running) < jobs:
            s = todo.pop()
            p = subprocess.Popen([PY, '-W', 'ignore', os.path.abspath(
                __file__), '--one', s], stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL, text=True,
                env=dict(env, DST_MUTANT=s), start_new_session=True)
            running.append((s, p, time.time()))
        time.sleep(.1)
        for r in list(running):
            s, p, t = r
            if p.poll() is None:
                if time.time() - t > 500:
                    os.killpg(p.pid, 9)
                    res = dict(spec=s, prop='?', cls='timeout')
                else:
                    continue
            else:
                try:
                    res = json.loads(p.stdout.read().strip()
                        .splitlines()[-1])
                except Exception:
                    res = dict(spec=s, prop='?', cls='crash',
                        rc=p.returncode)
            running.remove(r)
            res['desc'] = desc[s]
            log.write(json.dumps(res) + '\n')
            log.flush()


if __name__ == '__main__':
    if '--one' in sys.argv:
        one(sys.argv[-1])
    else:
        main()
