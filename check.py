#!/opt/venv/bin/python
"""check.py P01 [--tier quick|thorough] [--replay FILE] [--runs N] [--jobs N]"""
import argparse
import importlib
import os
import sys

# Everything that could make two executions differ is pinned before numpy loads.
_PIN = dict(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='pdf',
    PYTHONDONTWRITEBYTECODE='1')
if 'PYTHONHASHSEED' not in os.environ:
    _PIN['PYTHONHASHSEED'] = '0'
PY = '/opt/venv/bin/python'
_want = PY if os.path.exists(PY) else sys.executable
if os.environ.get('DST_REEXEC') != '1':
    env = dict(os.environ)
    env.update(_PIN)
    env['DST_REEXEC'] = '1'
    env.pop('GPMCCDEBUG', None)
    env.pop('PYTHONPATH', None)
    os.execve(_want, [_want, '-W', 'ignore', os.path.abspath(__file__)]
        + sys.argv[1:], env)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from dst import core, py2load


def load(pid):
    mod = importlib.import_module('dst.props.' + pid.lower())
    return mod.PROP


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
        default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--repo', default=os.environ.get('CGPM_REPO', '/repo'))
    ap.add_argument('--digests', action='store_true',
        help='print index and event-log digest of every run')
    a = ap.parse_args()
    py2load.install(a.repo)
    try:
        prop = load(a.property)
        if a.replay:
            return core.main_replay(prop, a.replay)
        if a.digests:
            prop.prepare()
            res, _w = core.batch(prop, a.seed, a.tier, a.jobs, a.runs,
                a.wall or 3600)
            for r in res:
                print(r['i'], r['digest'], r['viol'][0] if r['viol'] else '-',
                    'ERR' if r['err'] else '')
            return 0
        return core.main_check(prop, a.tier, a.seed, a.jobs, a.runs, a.wall)
    except SyntaxError as e:
        print('HARNESS ERROR: source does not parse: %s' % (e,))
        return 3


if __name__ == '__main__':
    sys.exit(main())
