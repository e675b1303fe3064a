"""The clock of the code under test.

`import time` and `import datetime` inside cgpm resolve to the two objects
below (see py2load).  With no simulated clock installed they are the real
modules; with one installed every reading comes from it.
"""

import datetime as _dt
import time as _t
import types


class Clock(object):
    """A simulated clock.  `tick` is how much every reading advances it."""

    def __init__(self, start=1.0e9, tick=0.):
        self.start, self.now, self.tick = start, start, tick
        self.reads = 0
        self.slept = 0.
        self.on_read = None

    def read(self):
        self.reads += 1
        if self.on_read is not None:
            self.on_read(self)
        t = self.now
        self.now += self.tick
        return t

    def advance(self, dt):
        self.now += dt

    def sleep(self, dt):
        self.slept += dt
        self.now += dt


CURRENT = None


class using(object):

    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        global CURRENT
        self.old, CURRENT = CURRENT, self.clock
        return self.clock

    def __exit__(self, *exc):
        global CURRENT
        CURRENT = self.old


def _reading(name, f):
    real = getattr(_t, name)

    def read(*a):
        return f(CURRENT.read()) if CURRENT is not None else real(*a)
    read.__name__ = name
    return read


class _TimeModule(types.ModuleType):

    def __getattr__(self, name):
        return getattr(_t, name)


time = _TimeModule('time')
for _n in ('time', 'monotonic', 'perf_counter', 'process_time'):
    setattr(time, _n, _reading(_n, lambda x: x))
for _n in ('time_ns', 'monotonic_ns', 'perf_counter_ns'):
    setattr(time, _n, _reading(_n, lambda x: int(x * 1e9)))
# Python 2 has time.clock.
time.clock = lambda: CURRENT.read() if CURRENT is not None \
    else _t.process_time()


def _sleep(dt):
    if CURRENT is not None:
        CURRENT.sleep(dt)
    else:
        _t.sleep(dt)


time.sleep = _sleep


def _of_now(name):
    real = getattr(_t, name)

    def f(secs=None):
        if secs is None and CURRENT is not None:
            secs = CURRENT.read()
        return real(secs)
    f.__name__ = name
    return f


for _n in ('gmtime', 'localtime', 'ctime'):
    setattr(time, _n, _of_now(_n))


def _strftime(fmt, t=None):
    return _t.strftime(fmt, time.localtime() if t is None else t)


time.strftime = _strftime


class _DateTime(_dt.datetime):

    @classmethod
    def now(cls, tz=None):
        if CURRENT is None:
            return _dt.datetime.now(tz)
        return _dt.datetime.fromtimestamp(CURRENT.read(),
            tz or _dt.timezone.utc).replace(tzinfo=tz)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


class _DateModule(types.ModuleType):

    def __getattr__(self, name):
        return getattr(_dt, name)


datetime = _DateModule('datetime')
datetime.datetime = _DateTime
