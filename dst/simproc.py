"""Simulated worker processes, pipes, descriptors and time.

Every simulated process is a Python thread, and exactly one of them runs at a
time: each call into this module (pipe operation, select, sleep, join, fork,
explicit point) is a scheduling point at which the simulator picks who runs
next from the schedule of the plan.  A fork copies the memory the child can
reach and the descriptor table of the parent; a killed process runs no further
instruction, its descriptors are closed and what it already wrote stays.
"""

import copy
import errno
import multiprocessing as _mp
import os as _os
import pickle as _pickle
import select as _select
import struct
import threading
import time as _time
import types
import weakref

FD0 = 100000


class Killed(BaseException):
    """Unwinds the thread of a simulated process that is dead."""


class Deadlock(BaseException):
    """Every process is blocked: the simulated program hangs."""


class StepLimit(BaseException):
    """The program keeps running without finishing."""


class ExitProcess(BaseException):
    pass


class PipeBuf(object):
    def __init__(self, cap):
        self.buf = bytearray()
        self.cap = cap
        self.r = 0
        self.w = 0


class Proc(object):
    def __init__(self, pid, parent):
        self.pid = pid
        self.parent = parent
        self.fds = {}
        self.alive = True
        self.exitcode = None
        self.sem = threading.Semaphore(0)
        self.thread = None
        self.ready = None
        self.what = 'start'
        self.killed = False
        self.points = 0
        self.stalled_until = -1
        self.deaths = 0


class Recorder(object):
    """Shared log which survives forks (it stands for the outside world)."""
    def __init__(self):
        self.calls = []
    def __deepcopy__(self, memo):
        return self


# --------------------------------------------------------------------------
# Fork: copy of everything the child can reach.

def _copy_function(f, memo):
    if f.__closure__ is None:
        return f
    cells = tuple(types.CellType() for _ in f.__closure__)
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__,
        f.__defaults__, cells)
    g.__kwdefaults__ = f.__kwdefaults__
    g.__dict__.update(f.__dict__)
    memo[id(f)] = g
    for new, old in zip(cells, f.__closure__):
        try:
            v = old.cell_contents
        except ValueError:
            continue
        try:
            new.cell_contents = copy.deepcopy(v, memo)
        except (TypeError, copy.Error):
            new.cell_contents = v
    return g


def fork_copy(obj):
    d = copy._deepcopy_dispatch
    old = d.get(types.FunctionType), d.get(types.ModuleType)
    d[types.FunctionType] = _copy_function
    d[types.ModuleType] = lambda m, memo: m
    try:
        return copy.deepcopy(obj)
    finally:
        for t, o in zip((types.FunctionType, types.ModuleType), old):
            if o is None:
                d.pop(t, None)
            else:
                d[t] = o


# --------------------------------------------------------------------------

class Sim(object):

    def __init__(self, sched=(), faults=(), ncpu=2, cap=65536, ctx=None,
            max_steps=20000):
        self.sched = list(sched)
        self.pos = 0
        self.ncpu = ncpu
        self.cap = cap
        self.ctx = ctx
        self.max_steps = max_steps
        self.steps = 0
        self.clock = 1000.0
        self.switches = 0
        self.next_pid = 100
        self.next_fd = FD0
        self.n_fork = 0
        self.n_pipe = 0
        self.faults = list(faults)
        self.fired = []
        self.deadlocked = None
        self.limit = False
        self.procs = []
        self.main = self._new_proc(None)
        self.cur = self.main
        self.conns = {}      # fd -> weakref of the Connection using it
        self.errors = []
        self.main_waits = 0
        self.cleaning = False

    # -- processes -------------------------------------------------------

    def _new_proc(self, parent):
        p = Proc(self.next_pid, parent)
        self.next_pid += 1
        self.procs.append(p)
        return p

    def workers(self):
        return [p for p in self.procs if p is not self.main]

    def log(self, *e):
        if self.ctx is not None:
            self.ctx.log(*e)

    def fire(self, f):
        self.fired.append(f)
        if self.ctx is not None:
            self.ctx.fault('proc-' + f['kind'])

    def _take(self, kind, **match):
        for f in self.faults:
            if f['kind'] == kind and all(f.get(k) == v
                    for k, v in match.items()):
                self.faults.remove(f)
                self.fire(f)
                return f
        return None

    def fork(self, target, args, kwargs):
        self.n_fork += 1
        self.point('fork')
        if self._take('forkfail', n=self.n_fork):
            raise OSError(errno.EAGAIN, 'Resource temporarily unavailable')
        child = self._new_proc(self.cur)
        child.index = len(self.procs) - 2
        child.fds = dict(self.cur.fds)
        for r, w in child.fds.values():
            if r is not None:
                r.r += 1
            if w is not None:
                w.w += 1
        target, args, kwargs = fork_copy((target, args, kwargs))

        def body():
            child.sem.acquire()
            code = 0
            try:
                if child.killed:
                    raise Killed()
                target(*args, **kwargs)
            except Killed:
                return
            except ExitProcess as e:
                code = e.args[0]
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (
                    0 if e.code is None else 1)
            except BaseException as e:
                code = 1
                self.log('worker-died', child.pid, type(e).__name__)
            if child.killed:
                return
            self._reap(child, code)
            try:
                self._switch(self._pick())
            except BaseException as e:
                # Nobody can run: hand the verdict to the main process.
                self._switch(self.main)
        child.thread = threading.Thread(target=body, daemon=True)
        child.thread.start()
        self.log('fork', child.pid, 'by', self.cur.pid)
        return child

    def _reap(self, p, code):
        p.alive = False
        p.exitcode = code
        for fd in list(p.fds):
            self._close(p, fd)
        self.log('exit', p.pid, code)

    def kill(self, p, code):
        if not p.alive:
            return
        p.killed = True
        self._reap(p, code)

    # -- scheduling ------------------------------------------------------

    def _runnable(self):
        out = []
        for p in self.procs:
            if p.alive and (p.ready is None or p.ready()):
                out.append(p)
        awake = [p for p in out if p.stalled_until <= self.steps]
        return awake or out

    def _timers(self):
        return [p.deadline for p in self.procs
            if p.alive and getattr(p, 'deadline', None) is not None]

    def _pick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            self.limit = True
            raise StepLimit()
        while True:
            run = self._runnable()
            if run:
                break
            t = self._timers()
            if not t:
                self.deadlocked = [(p.pid, p.what) for p in self.procs
                    if p.alive]
                self.log('deadlock', self.deadlocked)
                raise Deadlock()
            self.clock = max(self.clock, min(t))
        c = 0
        if self.pos < len(self.sched):
            c = self.sched[self.pos]
            self.pos += 1
        if c == 0:
            return self.cur if self.cur in run else run[0]
        return run[(c - 1) % len(run)]

    def _switch(self, p):
        self.cur = p
        p.sem.release()

    def point(self, what, ready=None, deadline=None, wait=False):
        """A scheduling point of the running process."""
        me = self.cur
        if me.killed:
            self._dead(me)
        me.points += 1
        me.what = what
        me.ready = ready
        me.deadline = deadline
        if deadline is not None:
            r0 = ready
            me.ready = lambda: self.clock >= deadline or (
                r0 is not None and r0())
        if me is not self.main:
            f = self._take('kill', worker=me.index, at=me.points)
            if f:
                self.log('kill', me.pid, what)
                self.kill(me, -9)
            f = None if me.killed else self._take(
                'stall', worker=me.index, at=me.points)
            if f:
                me.stalled_until = self.steps + f['steps']
        elif wait and not self.cleaning:
            self.main_waits += 1
            if self._take('interrupt', at=self.main_waits):
                self.cleaning = True
                me.ready = me.deadline = None
                raise KeyboardInterrupt()
        try:
            nxt = self._pick()
        except (Deadlock, StepLimit):
            if me is self.main:
                me.ready = me.deadline = None
                raise
            nxt = self.main
        if nxt is not me:
            self.switches += 1
            self.cur = nxt
            nxt.sem.release()
            me.sem.acquire()
        if me.killed:
            self._dead(me)
        me.ready = me.deadline = None
        if me is self.main:
            if self.limit:
                raise StepLimit()
            if self.deadlocked is not None:
                raise Deadlock()

    def _dead(self, me):
        me.deaths += 1
        if me.deaths > 50:
            threading.Event().wait()    # code that swallows everything
        raise Killed()

    def finish(self):
        """Unwind what is still there (after the verdict was taken)."""
        for p in self.workers():
            if p.thread is None:
                continue
            if p.alive:
                p.alive = False
            p.killed = True
            if p.thread.is_alive():
                p.sem.release()
                p.thread.join(5.0)

    # -- descriptors -----------------------------------------------------

    def _end(self, fd, want):
        e = self.cur.fds.get(fd)
        if e is None:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        b = e[0] if want == 'r' else e[1]
        if b is None:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        return b

    def _fd(self, r, w):
        fd = self.next_fd
        self.next_fd += 1
        self.cur.fds[fd] = (r, w)
        if r is not None:
            r.r += 1
        if w is not None:
            w.w += 1
        return fd

    def pipe(self):
        if self.cur.killed:
            self._dead(self.cur)
        self.n_pipe += 1
        if self._take('pipefail', n=self.n_pipe):
            raise OSError(errno.EMFILE, 'Too many open files')
        b = PipeBuf(self.cap)
        return self._fd(b, None), self._fd(None, b)

    def duplex(self):
        self.n_pipe += 1
        if self._take('pipefail', n=self.n_pipe):
            raise OSError(errno.EMFILE, 'Too many open files')
        a, b = PipeBuf(self.cap), PipeBuf(self.cap)
        return self._fd(a, b), self._fd(b, a)

    def _close(self, p, fd):
        r, w = p.fds.pop(fd)
        if r is not None:
            r.r -= 1
        if w is not None:
            w.w -= 1

    def close(self, fd):
        if self.cur.killed:
            self._dead(self.cur)
        if fd not in self.cur.fds:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        self._close(self.cur, fd)

    def read(self, fd, n):
        b = self._end(fd, 'r')
        self.point('read', lambda: b.buf or b.w == 0, wait=True)
        out = bytes(b.buf[:n])
        del b.buf[:n]
        return out

    def write(self, fd, data):
        """One write call: blocks until all is written, as a blocking pipe
        does; small writes are atomic, large ones can be cut by a death."""
        b = self._end(fd, 'w')
        data = bytes(data) if not isinstance(data, str) \
            else data.encode('latin1')
        total = len(data)
        atomic = total <= 4096
        while True:
            need = total if atomic else 1
            self.point('write', lambda: b.r == 0
                or b.cap - len(b.buf) >= min(need, b.cap))
            if b.r == 0:
                raise OSError(errno.EPIPE, 'Broken pipe')
            k = min(len(data), b.cap - len(b.buf))
            if not atomic:
                k = min(k, 4096)
            b.buf.extend(data[:k])
            data = data[k:]
            if not data:
                return total

    def readable(self, fd):
        e = self.cur.fds.get(fd)
        if e is None:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        return e[0] is not None and bool(e[0].buf or e[0].w == 0)

    def writable(self, fd):
        e = self.cur.fds.get(fd)
        if e is None:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        return e[1] is not None and (
            e[1].r == 0 or e[1].cap - len(e[1].buf) >= 4096)

    def select(self, rl, wl, xl, timeout=None):
        me = self.cur
        fno = lambda o: o if isinstance(o, int) else o.fileno()
        rf = [(o, fno(o)) for o in rl]
        wf = [(o, fno(o)) for o in wl]
        ends = dict(me.fds)
        for _o, fd in rf + wf:
            if fd not in ends:
                raise OSError(errno.EBADF, 'Bad file descriptor')
        rr = lambda fd: ends[fd][0] is not None and bool(
            ends[fd][0].buf or ends[fd][0].w == 0)
        ww = lambda fd: ends[fd][1] is not None and (
            ends[fd][1].r == 0
            or ends[fd][1].cap - len(ends[fd][1].buf) >= 4096)
        ready = lambda: any(rr(fd) for _o, fd in rf) \
            or any(ww(fd) for _o, fd in wf)
        self.point('select', ready, None if timeout is None
            else self.clock + timeout, wait=True)
        return ([o for o, fd in rf if rr(fd)], [o for o, fd in wf if ww(fd)],
            [])

    def sleep(self, t):
        self.point('sleep', lambda: False, self.clock + max(0., t))

    def leaks(self):
        """Descriptors the main process still holds (and can reach)."""
        import gc
        out = []
        for fd in self.main.fds:
            ref = self.conns.get(fd)
            if ref is not None and ref() is None:
                continue
            out.append(fd)
        if out:
            gc.collect()
            out = [fd for fd in out
                if not (fd in self.conns and self.conns[fd]() is None)]
        return out


# --------------------------------------------------------------------------
# The library as the code under test sees it

SIM = None


class Connection(object):
    def __init__(self, fd, readable, writable):
        self._fd = fd
        self.readable, self.writable = readable, writable
        SIM.conns[fd] = weakref.ref(self)

    def __deepcopy__(self, memo):
        return self

    @property
    def closed(self):
        return self._fd not in SIM.cur.fds

    def _check(self, need):
        if self.closed:
            raise IOError('handle is closed')
        if not getattr(self, need):
            raise IOError('connection is %s-only' % (
                'write' if need == 'readable' else 'read',))

    def fileno(self):
        self._check_open()
        return self._fd

    def _check_open(self):
        if self.closed:
            raise IOError('handle is closed')

    def close(self):
        if not self.closed:
            SIM.close(self._fd)

    def send(self, obj):
        self._check('writable')
        self.send_bytes(_pickle.dumps(obj, 2))

    def send_bytes(self, data):
        self._check('writable')
        head = struct.pack('!i', len(data))
        if len(data) < 16384:
            SIM.write(self._fd, head + data)
        else:
            SIM.write(self._fd, head)
            SIM.write(self._fd, data)

    def recv_bytes(self):
        self._check('readable')
        return self._recv_bytes()

    def _read(self, n, first):
        out = b''
        while len(out) < n:
            d = SIM.read(self._fd, n - len(out))
            if not d:
                if first and not out:
                    raise EOFError()
                raise IOError('got end of file during message')
            out += d
        return out

    def _recv_bytes(self):
        n, = struct.unpack('!i', self._read(4, True))
        return self._read(n, False)

    def recv(self):
        self._check('readable')
        return _pickle.loads(self._recv_bytes(), encoding='latin1')

    def poll(self, timeout=0.0):
        self._check('readable')
        r, _w, _x = SIM.select([self._fd], [], [], timeout)
        return bool(r)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def Pipe(duplex=True):
    if duplex:
        a, b = SIM.duplex()
        return Connection(a, True, True), Connection(b, True, True)
    r, w = SIM.pipe()
    return Connection(r, True, False), Connection(w, False, True)


class Process(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}):
        self._target, self._args, self._kwargs = target, args, dict(kwargs)
        self._p = None
        self.name = name
        self.daemon = False

    def __deepcopy__(self, memo):
        return self

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        assert self._p is None, 'cannot start a process twice'
        if type(self).run is Process.run and self._target is not None:
            self._p = SIM.fork(self._target, self._args, self._kwargs)
        else:
            self._p = SIM.fork(self.run, (), {})

    @property
    def pid(self):
        return None if self._p is None else self._p.pid
    ident = pid

    @property
    def exitcode(self):
        return None if self._p is None else self._p.exitcode

    def is_alive(self):
        return self._p is not None and self._p.alive

    def join(self, timeout=None):
        assert self._p is not None, 'can only join a started process'
        SIM.point('join', lambda: not self._p.alive,
            None if timeout is None else SIM.clock + timeout, wait=True)

    def terminate(self):
        if self._p is None:
            raise AttributeError("'NoneType' object has no attribute "
                "'terminate'")
        SIM.cleaning = True
        SIM.kill(self._p, -15)
        SIM.point('terminate')

    kill = terminate


class _Mp(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'multiprocessing')
        self.Process, self.Pipe = Process, Pipe
        self.cpu_count = lambda: SIM.ncpu
        self.active_children = lambda: []

    def __getattr__(self, name):
        return getattr(_mp, name)


class _Os(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'os')

    def __getattr__(self, name):
        return getattr(_os, name)

    @staticmethod
    def pipe():
        return SIM.pipe()

    @staticmethod
    def read(fd, n):
        return SIM.read(fd, n) if fd >= FD0 else _os.read(fd, n)

    @staticmethod
    def write(fd, data):
        return SIM.write(fd, data) if fd >= FD0 else _os.write(fd, data)

    @staticmethod
    def close(fd):
        return SIM.close(fd) if fd >= FD0 else _os.close(fd)

    @staticmethod
    def getpid():
        return SIM.cur.pid

    @staticmethod
    def getppid():
        return SIM.cur.parent.pid if SIM.cur.parent else 1

    @staticmethod
    def _exit(code):
        raise ExitProcess(code)

    @staticmethod
    def kill(pid, sig):
        for p in SIM.procs:
            if p.pid == pid:
                if not p.alive:
                    return
                if sig:
                    SIM.kill(p, -sig)
                return
        raise OSError(errno.ESRCH, 'No such process')

    @staticmethod
    def fork():
        raise NotImplementedError('fork is not simulated')


class _Select(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'select')
        self.error = OSError
        self.POLLIN, self.POLLOUT = _select.POLLIN, _select.POLLOUT
        self.POLLHUP, self.POLLERR = _select.POLLHUP, _select.POLLERR

    @staticmethod
    def select(r, w, x, timeout=None):
        return SIM.select(r, w, x, timeout)

    class poll(object):
        def __init__(self):
            self.reg = {}
        def register(self, fd, mask=_select.POLLIN):
            self.reg[fd if isinstance(fd, int) else fd.fileno()] = mask
        def unregister(self, fd):
            del self.reg[fd if isinstance(fd, int) else fd.fileno()]
        def poll(self, timeout=None):
            r = [f for f, m in self.reg.items() if m & _select.POLLIN]
            w = [f for f, m in self.reg.items() if m & _select.POLLOUT]
            r, w, _x = SIM.select(r, w, [],
                None if timeout is None else timeout / 1000.)
            out = {}
            for f in r:
                e = SIM.cur.fds[f][0]
                out[f] = _select.POLLIN if e.buf else _select.POLLHUP
            for f in w:
                out[f] = out.get(f, 0) | _select.POLLOUT
            return sorted(out.items())


class _Time(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'time')

    def __getattr__(self, name):
        return getattr(_time, name)

    @staticmethod
    def sleep(t):
        SIM.sleep(t)

    @staticmethod
    def time():
        return SIM.clock


MP, OS, SELECT, TIME = _Mp(), _Os(), _Select(), _Time()

_REPLACE = [(_mp, MP), (_os, OS), (_select, SELECT), (_time, TIME),
    (_mp.Process, Process), (_mp.Pipe, Pipe), (_mp.cpu_count, MP.cpu_count),
    (_select.select, SELECT.select), (_select.poll, SELECT.poll),
    (_time.sleep, TIME.sleep), (_time.time, TIME.time),
    (_os.pipe, OS.pipe), (_os.read, OS.read), (_os.write, OS.write),
    (_os.close, OS.close), (_os.kill, OS.kill), (_os._exit, OS._exit),
    (_os.getpid, OS.getpid)]


def install(module):
    """Put the module's own references to the system behind the seam."""
    for name, val in list(vars(module).items()):
        for real, sim in _REPLACE:
            if val is real or (isinstance(val, types.MethodType)
                    and isinstance(real, types.MethodType) and val == real):
                setattr(module, name, sim)
                break


class Simulation(object):
    """with Simulation(...) as sim: run the program as the main process."""

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        global SIM
        SIM = Sim(**self.kw)
        return SIM

    def __exit__(self, *a):
        global SIM
        SIM.finish()
        SIM = None
