"""Load /repo's cgpm (the working directory) for a demonstration."""
import os
import sys
import warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import py2load
py2load.install(os.getcwd())
import numpy as np
np.seterr(all='ignore')


def check(ok, msg):
    if not ok:
        sys.stdout.flush()
        print('BROKEN: %s' % (msg,), file=sys.stderr)
        os._exit(1)


def close(a, b, tol=1e-6):
    return abs(float(a) - float(b)) <= tol * (1 + abs(float(b)))


def state(X, cctypes, seed=1, **kw):
    from cgpm.crosscat.state import State
    return State(X, cctypes=cctypes, rng=np.random.RandomState(seed), **kw)
