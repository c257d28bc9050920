"""A controlled scheduler: runs a few threads of real code one at a time and
enumerates every schedule with a bounded number of preemptions.

install() must run before abl.vpath is imported.  It replaces the locks and
threads of the threading module, time.time/sleep and fcntl.flock by versions
which, inside a run, are decided by the scheduler (and outside of one behave
as usual; threads started outside of a run never run).

Scheduling points are the steps in files below /repo/abl that can interact
with another thread:
  - reading an attribute that anything below /repo/abl ever sets outside of
    __init__ (the names are collected from the sources), setting and deleting
    attributes and globals;
  - item access, `in` and iteration;
  - calls of anything but functions of /repo/abl (they consist of their own
    points) and functions on immutable values;
  - every acquire and release of a lock.
All other bytecodes only touch the frame's own stack and locals or what never
changes, so a switch before them is the same as one before the next point.
Methods of objects known to be used by one thread only (the threads' own URIs)
have no points either, as long as they only use such things.
"""
import _thread
import dis
import fcntl
import os
import re
import sys
import threading
import time
import types

from . import common

REAL_LOCK = _thread.allocate_lock
REAL_TIME, REAL_SLEEP, REAL_FLOCK = time.time, time.sleep, fcntl.flock
REAL_MONOTONIC = time.monotonic

_PREFIX = common.REPO + '/abl/'


class Abandon(BaseException):
    "ends the threads of a run that cannot go on"


class T(object):
    def __init__(self, n, func):
        self.n, self.func = n, func
        self.baton = REAL_LOCK()
        self.baton.acquire()
        self.done = False
        self.started = False
        self.blocked = None         # a function: may it go on?
        self.result = None
        self.error = None
        self.wake_at = None         # asleep


class Pooled(object):
    "a thread that runs one function after the other"
    idle = []

    def __init__(self):
        self.go = REAL_LOCK()
        self.go.acquire()
        self.func = None
        _thread.start_new_thread(self.loop, ())

    def loop(self):
        while True:
            self.go.acquire()
            self.func()

    @classmethod
    def start(cls, func):
        p = cls.idle.pop() if cls.idle else cls()
        p.func = lambda: func(p)
        p.go.release()


class Run(object):
    """one execution under a schedule"""
    current = None                  # the Run in progress
    MAXPOINTS = 20000
    START = 1000.0                  # the time it begins at

    def __init__(self, funcs, prefix=(), bound=2):
        self.threads = [T(i, f) for i, f in enumerate(funcs)]
        self.prefix = prefix
        self.bound = bound
        self.points = []            # (options, chosen, cost before)
        self.cost = 0
        self.now = self.START
        self.clock = 0              # logical time: grows with every event
        self.cur = None
        self.abandoned = False
        self.deadlock = False
        self.main = REAL_LOCK()
        self.main.acquire()
        self.npoints = 0

    def tick(self):
        self.clock += 1
        return self.clock

    # -- called by the threads

    def me(self):
        t = self.cur
        return t if t is not None and t.ident == _thread.get_ident() else None

    def spent(self):
        "no more preemptions to come"
        return self.cost >= self.bound

    # objects of these classes are used by one thread only
    private = None

    # qualified names of functions that are taken for atomic (checked elsewhere)
    atomic = ()

    def in_atomic(self, frame):
        "called by a function that is taken for atomic?"
        for _ in range(4):
            frame = frame.f_back
            if frame is None:
                return False
            code = frame.f_code
            if code.co_filename.startswith(_PREFIX):
                return code.co_qualname.startswith(self.atomic)
        return False

    def enabled(self):
        return [t for t in self.threads if not t.done and (t.blocked is None or t.blocked())]

    def point(self):
        "the running thread may be preempted here"
        if self.abandoned:
            raise Abandon()
        self.npoints += 1
        if self.npoints > self.MAXPOINTS:
            self.give_up()
        me = self.cur
        if self.cost >= self.bound:
            return
        others = [t for t in self.threads if t is not me and not t.done and (t.blocked is None or t.blocked())]
        if others:
            self.choose([me] + others, preempt=True)

    def choose(self, options, preempt):
        i = len(self.points)
        want = self.prefix[i] if i < len(self.prefix) else options[0].n
        for t in options:
            if t.n == want:
                break
        else:
            raise AssertionError('replay went another way')
        self.points.append(([x.n for x in options], want, self.cost, preempt))
        if preempt and t is not options[0]:
            self.cost += 1
        if t is not self.cur:
            self.switch(t)

    def switch(self, t):
        me = self.cur
        self.cur = t
        self.wake(t)
        if me is not None and not me.done:
            me.baton.acquire()
            if self.abandoned:
                raise Abandon()

    def wake(self, t):
        if not t.started:
            t.started = True
            Pooled.start(lambda p: self._body(t, p))
        else:
            t.baton.release()

    def free(self):
        "a switch here does not count as a preemption"
        options = self.enabled()
        if len(options) > 1:
            self.choose([self.cur] + [t for t in options if t is not self.cur], preempt=False)

    def block(self, ready):
        "the running thread cannot go on until ready()"
        me = self.cur
        while not ready():
            if self.abandoned:
                raise Abandon()
            me.blocked = ready
            options = self.enabled()
            if not options:
                if not any(t.wake_at is not None for t in self.threads if not t.done):
                    self.deadlock = True
                    self.give_up()
                # all wait: time passes
                self.now = min(t.wake_at for t in self.threads if not t.done and t.wake_at is not None)
                continue
            self.choose(options, preempt=False)
        me.blocked = None

    def sleep(self, seconds):
        "time passes only when nobody can do anything else"
        me = self.cur
        self.point()
        me.wake_at = self.now + seconds
        self.block(lambda: self.now >= me.wake_at)
        me.wake_at = None

    def give_up(self):
        self.abandoned = True
        raise Abandon()

    def _body(self, t, pooled):
        t.ident = _thread.get_ident()
        try:
            t.result = t.func()
        except Abandon:
            pass
        except BaseException as e:
            t.error = e
        finally:
            t.done = True
            Pooled.idle.append(pooled)
            if not self.abandoned:
                options = self.enabled()
                try:
                    if options:
                        self.choose(options, preempt=False)
                        return
                    left = [x for x in self.threads if not x.done]
                    times = [x.wake_at for x in left if x.wake_at is not None]
                    if times:
                        self.now = min(times)
                        self.choose(self.enabled(), preempt=False)
                        return
                    if left:
                        self.deadlock = True
                        self.abandoned = True
                except BaseException as e:
                    self.abandoned = True
                    self.error = e
            for x in self.threads:          # let the others unwind one by one
                if x.started and not x.done:
                    self.cur = x
                    x.baton.release()
                    return
            self.cur = None
            self.main.release()

    def spawn(self, func):
        t = T(len(self.threads), func)
        self.threads.append(t)
        return t

    error = None

    def go(self):
        Run.current = self
        try:
            options = list(self.threads)
            i = len(self.points)
            want = self.prefix[0] if self.prefix else 0
            self.points.append(([x.n for x in options], want, 0, False))
            self.cur = self.threads[want]
            self.wake(self.cur)
            self.main.acquire()
        finally:
            Run.current = None
        if self.error is not None:
            raise self.error
        return self


def run_of_me():
    r = Run.current
    return r if r is not None and r.me() is not None else None


# ----------------------------------------------------------------------------
# the controlled versions of what threads synchronise with

class Lock(object):
    def __init__(self):
        self.held = False
        self.real = REAL_LOCK()

    def acquire(self, blocking=True, timeout=-1):
        r = run_of_me()
        if r is None:
            if blocking and timeout >= 0 and Clock.now is not None:
                # waiting for an event, say
                ok = self.real.acquire(False)
                if not ok:
                    _sleep(timeout)
                    ok = self.real.acquire(False)
            else:
                ok = self.real.acquire(blocking, timeout) if blocking else self.real.acquire(False)
            if ok:
                self.held = True
            return ok
        if not (r.atomic and r.in_atomic(sys._getframe())):
            r.point()
        if self.held and not blocking:
            return False
        if self.held and timeout is not None and timeout >= 0:
            if sys._getframe(1).f_code.co_qualname == 'Condition.wait':
                # waiting for an event: time passes when nobody can do anything else
                me = r.cur
                me.wake_at = r.now + timeout
                r.block(lambda: not self.held or r.now >= me.wake_at)
                me.wake_at = None
            if self.held:
                # whether the time suffices is up to the schedule: it does not
                return False
        r.block(lambda: not self.held)
        self.held = True
        self.real.acquire(False)
        return True

    acquire_lock = acquire

    def release(self):
        r = run_of_me()
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held = False
        self.real.release()
        if r is not None and not (r.atomic and r.in_atomic(sys._getframe())):
            r.point()

    release_lock = release

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.held = False
        self.real = REAL_LOCK()


class RLock(object):
    def __init__(self):
        self.lock = Lock()
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.owner == me:
            self.count += 1
            return True
        if self.lock.acquire(blocking, timeout):
            self.owner, self.count = me, 1
            return True
        return False

    def release(self):
        if self.owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if not self.count:
            self.owner = None
            self.lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        state = (self.count, self.owner)
        self.count, self.owner = 0, None
        self.lock.release()
        return state

    def _acquire_restore(self, state):
        self.lock.acquire()
        self.count, self.owner = state

    def _at_fork_reinit(self):
        self.__init__()


class Thread(object):
    """threads started in a run take part in it; others never run"""
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.name, self.daemon = name or 'thread', daemon
        self.t = None

    def setDaemon(self, d):
        self.daemon = d

    def run(self):
        if self.target:
            self.target(*self.args, **self.kwargs)

    def start(self):
        r = run_of_me()
        if r is not None:
            self.t = r.spawn(self.run)

    def is_alive(self):
        return self.t is not None and not self.t.done

    def join(self, timeout=None):
        r = run_of_me()
        if r is not None and self.t is not None:
            if timeout is not None:
                r.point()
                return
            r.block(lambda: self.t.done)


class Clock(object):
    "virtual time outside of runs; None: the real one"
    now = None
    on_sleep = None


def _time():
    r = run_of_me()
    if r is not None:
        return r.now
    return REAL_TIME() if Clock.now is None else Clock.now


def _monotonic():
    r = run_of_me()
    if r is not None:
        return r.now
    return REAL_MONOTONIC() if Clock.now is None else Clock.now


def _sleep(seconds):
    r = run_of_me()
    if r is not None:
        r.sleep(seconds)
    elif Clock.now is not None:
        Clock.now += seconds
        if Clock.on_sleep is not None:
            Clock.on_sleep()
    else:
        REAL_SLEEP(seconds)


def _flock(fd, op):
    r = run_of_me()
    if r is None or op & fcntl.LOCK_UN:
        res = REAL_FLOCK(fd, op)
        if r is not None:
            r.point()
        return res
    r.point()
    if op & fcntl.LOCK_NB:
        return REAL_FLOCK(fd, op)

    def ready():
        try:
            REAL_FLOCK(fd, op | fcntl.LOCK_NB)
            return True
        except OSError:
            return False
    # taking it is the test: undo it when it is only asked about
    def may():
        if ready():
            REAL_FLOCK(fd, fcntl.LOCK_UN)
            return True
        return False
    while True:
        r.block(may)
        if ready():
            return


def install():
    assert not any(m.startswith('abl.vpath') for m in sys.modules), 'too late'
    # used by the code under test; what the standard library has made so far stays
    import logging, tempfile, queue, zipfile, subprocess, shutil, importlib.metadata   # noqa
    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock = Lock
    threading.Thread = Thread
    time.time, time.sleep, time.monotonic = _time, _sleep, _monotonic
    fcntl.flock = _flock
    mon.use_tool_id(TOOL, 'abl-mc')
    mon.register_callback(TOOL, mon.events.PY_START, _start)
    mon.register_callback(TOOL, mon.events.INSTRUCTION, _instruction)
    mon.register_callback(TOOL, mon.events.CALL, _call)
    mon.set_events(TOOL, mon.events.PY_START)
    for root, _, files in os.walk(_PREFIX):
        for name in files:
            if name.endswith('.py'):
                with open(os.path.join(root, name), encoding='utf-8') as f:
                    _collect(compile(f.read(), name, 'exec', dont_inherit=True))


# ----------------------------------------------------------------------------
# scheduling points

mon = sys.monitoring
TOOL = 4
STORED = set()                  # attributes that are set outside of __init__
_offsets = {}                   # code -> {offset}
_maybe_private = {}             # code -> no use of anything that may be shared


def _collect(code):
    for ins in dis.get_instructions(code):
        if ins.opname in ('STORE_ATTR', 'DELETE_ATTR') and code.co_name != '__init__':
            STORED.add(ins.argval)
        elif ins.opname == 'STORE_GLOBAL':
            STORED.add(ins.argval)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _collect(c)


def _scan(code):
    res = set()
    for ins in dis.get_instructions(code):
        op = ins.opname
        if op in ('BINARY_SUBSCR', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'CONTAINS_OP', 'FOR_ITER', 'BINARY_SLICE', 'STORE_SLICE',
                  'STORE_GLOBAL', 'DELETE_ATTR', 'DELETE_GLOBAL', 'YIELD_VALUE', 'SEND'):
            res.add(ins.offset)
        elif op == 'STORE_ATTR' and code.co_name != '__init__':
            res.add(ins.offset)
        elif op in ('LOAD_ATTR', 'LOAD_GLOBAL', 'LOAD_SUPER_ATTR') and ins.argval in STORED:
            res.add(ins.offset)
    return res


def _start(code, offset):
    if code.co_filename.startswith(_PREFIX):
        _offsets[code] = _scan(code)
        mon.set_local_events(TOOL, code, mon.events.INSTRUCTION | mon.events.CALL)
    return mon.DISABLE


def _may_preempt():
    r = Run.current
    if r is None or r.cost >= r.bound:
        if r is not None and r.abandoned and r.me() is not None:
            raise Abandon()
        return None
    return r if r.me() is not None else None


def _instruction(code, offset):
    if offset not in _offsets[code]:
        return mon.DISABLE
    r = _may_preempt()
    if r is not None and not (r.atomic and code.co_qualname.startswith(r.atomic)) and \
            not (r.private is not None and _is_private(r, code, sys._getframe(1))):
        r.point()


_IMMUTABLE = (str, bytes, int, float, type(None), tuple, frozenset, types.ModuleType, re.Pattern, re.Match, BaseException, type)
_PURE = {isinstance, issubclass, super, type, str, bytes, int, bool, float, object, id, callable, hash, repr}
_PURE_MODULES = {'posixpath', 'genericpath', 'os.path', 're', 'fnmatch', 'urllib.parse', 'decorator', 'inspect', 'collections', 'functools',
                 'mc.sched', 'enum', 'contextlib', 'abc'}


def _call(code, offset, func, arg0):
    r = _may_preempt()
    if r is None or r.atomic and code.co_qualname.startswith(r.atomic):
        return
    if isinstance(func, types.MethodType):
        func = func.__func__
    if isinstance(func, types.FunctionType):
        if func.__code__.co_filename.startswith(_PREFIX) or func.__module__ in _PURE_MODULES:
            return
    elif isinstance(func, type):
        if func in _PURE or func.__flags__ & (1 << 9) or issubclass(func, BaseException):     # 9: made by a class statement
            return
    elif func in _PURE:
        return
    else:
        me = getattr(func, '__self__', None)
        if me is None or isinstance(me, types.ModuleType):
            me = arg0
        if me is mon.MISSING or isinstance(me, _IMMUTABLE) and not isinstance(func, types.FunctionType):
            if getattr(func, '__module__', None) not in ('posix', 'fcntl', '_io', 'io', 'os'):
                return
        if r.private is not None and isinstance(me, r.private):
            return
    if not (r.private is not None and _is_private(r, code, sys._getframe(1))):
        r.point()


def _is_private(r, code, frame):
    """a method of an object only this thread knows, that uses nothing but
    this object and functions, classes, modules and constants?"""
    may = _maybe_private.get(code)
    if may is None:
        may = bool(code.co_argcount) and not code.co_freevars
        for name in code.co_names:
            if 'connection' in name or 'CONNECTION' in name:
                may = False
            if isinstance(frame.f_globals.get(name), (list, dict, set, Lock, RLock)):
                may = False
        if may:
            me = frame.f_locals.get(code.co_varnames[0])
            if isinstance(me, r.private):
                for name in code.co_names:
                    if isinstance(getattr(type(me), name, None), (list, dict, set, Lock, RLock)) and not name.startswith('__'):
                        may = False
        _maybe_private[code] = may
    return may and isinstance(frame.f_locals.get(code.co_varnames[0]), r.private)


# ----------------------------------------------------------------------------
# enumeration

def schedules(make, bound, check, shard=(0, 1), limit=None, private=None, atomic=()):
    """run every schedule of the threads make() gives, with at most `bound`
    preemptions; check(run) after each.  -> number of schedules

    The tree of schedules is divided below its second level: all shards walk
    the first two, the first one counts them."""
    for first in range(2):          # all that is loaded late is, afterwards
        run = Run(make(), (first,), 0)
        run.private, run.atomic = private, atomic
        run.go()
    stack = [((), 0)]
    n = mine = 0
    while stack:
        prefix, depth = stack.pop()
        if depth == 2:
            mine += 1
            if mine % shard[1] != shard[0]:
                continue
        run = Run(make(), prefix, bound)
        run.private, run.atomic = private, atomic
        run.go()
        if depth >= 2 or shard[0] == 0:
            n += 1
            check(run)
            if limit and n >= limit:
                return n
        pts = run.points
        taken = [p[1] for p in pts]
        for i in range(len(pts) - 1, len(prefix) - 1, -1):
            options, chosen, cost, preempt = pts[i]
            if preempt and cost + 1 > bound:
                continue
            for o in options:
                if o != chosen:
                    stack.append((tuple(taken[:i]) + (o,), depth + 1))
    return n
