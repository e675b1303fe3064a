"""A second interpreter, with another string hash seed, that records the same
plan.  `Partner(seed).record(plan)` gives the events it saw."""

import json
import os
import subprocess
import sys


class Partner(object):

    def __init__(self, hashseed):
        self.hashseed = hashseed
        self.p = None

    def start(self):
        from . import core, py2load
        env = dict(os.environ, PYTHONHASHSEED=str(self.hashseed),
            PYTHONPATH=core.VERIF)
        self.owner = os.getpid()
        self.p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m',
            'dst.partner', py2load.REPO], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env,
            cwd=core.VERIF)

    def record(self, plan):
        if self.p is None or self.owner != os.getpid() \
                or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(plan) + '\n').encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BaseException:
            # Also when the wall-clock guard of the run fires.
            self.stop()
            raise
        if not line:
            self.stop()
            raise RuntimeError('the second interpreter ended')
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def main():
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    from . import py2load
    py2load.install(sys.argv[1])
    from .props import p03
    P = p03.PROP
    P.prepare()
    for line in sys.stdin:
        try:
            events = P.record(json.loads(line), 2)
        except Exception as e:
            events = [['harness', repr(e), repr(e)]]
        out.write((json.dumps(events) + '\n').encode())
        out.flush()


if __name__ == '__main__':
    main()
