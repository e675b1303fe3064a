"""survey.py P07 N [--repo R]: run N seeds without stopping; count failures."""
import collections
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ.update(PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1',
        OMP_NUM_THREADS='1')
    PY = '/opt/venv/bin/python'
    os.execv(PY, [PY, '-W', 'ignore'] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib
import multiprocessing
from dst import core, py2load
repo = sys.argv[sys.argv.index('--repo') + 1] if '--repo' in sys.argv \
    else '/repo'
py2load.install(repo)
P = importlib.import_module('dst.props.' + sys.argv[1].lower()).PROP
P.prepare()


def one(i):
    try:
        s, plan = core.run_seed(P, int(os.environ.get('SEED', 1)), i,
            os.environ.get('TIER', 'quick'))
        ctx, v, e = core.run_plan(P, plan)
    except Exception as e:
        return i, None, repr(e), None
    return i, v, e, dict(ctx.probes)


pool = multiprocessing.get_context('fork').Pool(
    int(os.environ.get('JOBS', 8)))
allf = []
cls, first, n, probes = collections.Counter(), {}, 0, collections.Counter()
for i, v, e, p in pool.imap_unordered(one, range(int(sys.argv[2])), 8):
    n += 1
    probes.update(p or {})
    k = None
    if e:
        k = 'HARNESS ' + e.strip().splitlines()[-1][:12]
        m = e
    elif v:
        k, m = v
        if k.startswith('unexpected'):
            import re
            k += ' ' + re.sub('[0-9.]+', '#', m.splitlines()[0])[-40:]
    if k:
        allf.append((k, i))
        cls[k] += 1
        if k not in first or first[k][0] > i:
            first[k] = (i, m)
pool.terminate()
print('%d runs' % n)
for k, c in cls.most_common(14):
    print('%5d %s\n        first run %d: %s' % (c, k, first[k][0],
        first[k][1][-900 if 'HARN' in k else 0:][:int(os.environ.get('W', 260))].replace('\n', ' | ')))
if '-a' in sys.argv:
    print(sorted(allf))
if '-p' in sys.argv:
    print(dict(sorted(probes.items())))
