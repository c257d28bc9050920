"""C17: idle connections are closed after the timeout, used ones are not."""
import sys
from itertools import product

from .. import sched
from ..common import load, require

BOUNDS = {
    'quick': 'all histories of 6 events (uses of two connections, time passing, clean-ups, shutdown), closing works or fails; every public operation as the use; '
             'the cleaner loop under a virtual clock with all subsets of 5 moments of use of two connections',
    'thorough': 'the same with histories of 7 events',
}
ASSUMPTIONS = ['the clean-up gives up what has been idle for longer than the timeout, not for exactly the timeout']
TIMEOUT = 100
EVENTS = ('uA', 'uB', 't40', 't60', 'c', 'F', 'S')


def setup(ctx):
    sched.install()
    load()
    sys.stderr = open('/dev/null', 'w')


def cases(ctx):
    n = 7 if ctx.thorough else 6
    for head in product(EVENTS, repeat=3):
        yield ('history', head, n)
    for op in OPS:
        yield ('op', op)
    for a in range(32):
        for fails in ('', 'A', 'B'):
            yield ('loop', a, fails)


OPS = {
    'exists': lambda u, o: u.exists(), 'isfile': lambda u, o: u.isfile(), 'isdir': lambda u, o: u.isdir(), 'isexec': lambda u, o: u.isexec(),
    'set_exec': lambda u, o: u.set_exec(0o100), 'islink': lambda u, o: u.islink(), 'readlink': lambda u, o: u.readlink(),
    'symlink': lambda u, o: u.symlink(o), 'mtime': lambda u, o: u.mtime(), 'walk': lambda u, o: u.walk(), 'listdir': lambda u, o: u.listdir(),
    'info': lambda u, o: u.info(), 'open': lambda u, o: u.open('rb'), 'mkdir': lambda u, o: u.mkdir(), 'makedirs': lambda u, o: u.makedirs(),
    'copy': lambda u, o: u.copy(o), 'move': lambda u, o: u.move(o), 'copystat': lambda u, o: u.copystat(o), 'remove': lambda u, o: u.remove(),
    'glob': lambda u, o: u.glob('*'), 'lock': lambda u, o: u.lock(), 'sync': lambda u, o: u.sync(o, ''),
}


def registry(ns, interval=10, timeout=TIMEOUT):
    schemes = dict(ns.REG.schemes)
    ns.REG.cleanup(force=True)
    new = ns.fs.ConnectionRegistry(clean_interval=interval, clean_timeout=timeout)
    ns.REG.__dict__.clear()
    ns.REG.__dict__.update(new.__dict__)
    for scheme, f in schemes.items():
        ns.REG.register(scheme, f)


class Model(object):
    def __init__(self, ns, fails=''):
        self.ns = ns
        self.fails = fails
        self.open = {}              # name -> (connection, last use)
        self.gone = []
        self.uris = {'A': ns.URI('rec://u@h/a'), 'B': ns.URI('rec2://h/b')}
        self.plug = ns.plug.RecordingFileSystem
        self.plug.calls[:] = []
        self.plug.created[:] = []

    def use(self, name):
        n = len(self.plug.created)
        self.uris[name].exists()
        conn = self.plug.calls[-1][0]
        conn.fail_on_close = name in self.fails
        if name in self.open:
            require(conn is self.open[name][0], 'an open connection was not used again')
        else:
            require(len(self.plug.created) == n + 1 and not conn.closed, 'the use after a clean-up did not get a fresh connection')
        self.open[name] = (conn, sched.Clock.now)

    def cleaned(self, force, timeout=TIMEOUT):
        for name, (conn, used) in list(self.open.items()):
            if force or sched.Clock.now - used > timeout:
                self.gone.append(conn)
                del self.open[name]

    def agree(self, where):
        for conn in self.gone:
            require(conn.closed == 1, '%s: a connection that was idle was closed %d times' % (where, conn.closed))
        for name, (conn, used) in self.open.items():
            require(conn.closed == 0, '%s: a connection last used %ss ago was closed' % (where, sched.Clock.now - used), name=name)


def run(ctx, case):
    ns = load()
    if case[0] == 'history':
        _, head, n = case
        for tail in product(EVENTS, repeat=n - 3):
            for fails in ('', 'A', 'AB'):
                if fails and not ('c' in head + tail or 'F' in head + tail):
                    continue
                history(ctx, ns, head + tail, fails)
    elif case[0] == 'op':
        op(ctx, ns, case[1])
    else:
        for b in range(32):
            loop(ctx, ns, case[1], b, case[2])


def history(ctx, ns, events, fails):
    if not any(e in 'cFS' for e in events) or events[-1] not in ('c', 'F', 'S', 'uA', 'uB'):
        return
    sched.Clock.now = 5000.0
    registry(ns)
    m = Model(ns, fails)
    for i, e in enumerate(events):
        if e[0] == 'u':
            m.use(e[1])
        elif e[0] == 't':
            sched.Clock.now += int(e[1:])
        else:
            if e == 'c':
                ns.REG.cleanup()
            elif e == 'F':
                ns.REG.cleanup(force=True)
            else:
                ns.REG.shutdown()
            m.cleaned(e != 'c')
        ctx.count('transitions')
        m.agree('after %s with closing %s failing' % (' '.join(events[:i + 1]), fails or 'nothing'))
        ctx.see('states', (fails, sorted((k, sched.Clock.now - v[1]) for k, v in m.open.items()), len(m.gone)))
    ctx.count('traces')
    ctx.sample({'history': events, 'closing fails': fails, 'still open': sorted(m.open)}, limit=1)


def op(ctx, ns, name):
    "the operation counts as a use"
    sched.Clock.now = 5000.0
    registry(ns)
    rec = ns.plug.RevisionedRecorder
    rec.calls[:] = []
    ns.plug.ANSWERS.clear()
    ns.plug.ANSWERS.update(glob=[], walk=iter(()), exists=True, isfile=True, isdir=False, islink=False)
    u, o = ns.URI('revrec://h/a'), ns.URI('revrec://h/b')
    conn = u.get_connection()
    closed = []
    conn.close = lambda: closed.append(1)
    sched.Clock.now += 61
    OPS[name](u, o)
    require(rec.calls and all(c[0] is conn for c in rec.calls), '%s did not use the open connection' % name)
    sched.Clock.now += 61
    ns.REG.cleanup()
    require(not closed, 'a connection was closed 61s after %s()' % name)
    require(o.get_connection() is conn, 'the connection was given up after %s()' % name)
    sched.Clock.now += 101
    ns.REG.cleanup()
    require(closed == [1], 'an idle connection was closed %d times' % len(closed))
    ctx.count('transitions', 3)
    ctx.count('traces')


def loop(ctx, ns, a, b, fails):
    "cleaner() as its thread runs it"
    start = 5000.0
    interval, timeout, end = 10, 25, 110
    moments = (0, 11, 22, 33, 47)
    uses = sorted([(start + t + 0.5, 'A') for i, t in enumerate(moments) if a >> i & 1] +
                  [(start + t + 0.5, 'B') for i, t in enumerate(moments) if b >> i & 1])
    sched.Clock.now = start
    registry(ns, interval, timeout)
    m = Model(ns, fails)
    stopped = []
    where = 'cleaner loop, uses %s' % [(t - start, n) for t, n in uses]

    def tick():
        now = sched.Clock.now
        while uses and uses[0][0] <= now:
            _, name = uses.pop(0)
            if name in m.open and m.open[name][0].closed:
                m.gone.append(m.open.pop(name)[0])
            m.use(name)
        for name, (conn, used) in list(m.open.items()):
            idle = now - used
            require(conn.closed <= 1, '%s: closed twice' % where)
            if stopped:
                continue
            if idle <= timeout:
                require(not conn.closed, '%s: %s is closed %ss after its last use' % (where, name, idle))
            elif idle > timeout + interval + 2:
                require(conn.closed, '%s: %s is still open %ss after its last use' % (where, name, idle))
        for conn in m.gone:
            require(conn.closed == 1, '%s: closed %d times' % (where, conn.closed))
        if now >= start + end:
            if not stopped:
                stopped.append(1)
                for conn, _ in m.open.values():
                    require(conn.closed <= 1, 'closed twice')
                ns.REG.shutdown()
        require(now < start + end + 5, '%s: the cleaner does not stop' % where)
        ctx.count('transitions')
    sched.Clock.on_sleep = tick
    try:
        ns.REG.cleaner()
    finally:
        sched.Clock.on_sleep = None
    require(sched.Clock.now >= start + end, '%s: the cleaner ended at %s' % (where, sched.Clock.now - start))
    for conn in [x[0] for x in m.open.values()] + m.gone:
        require(conn.closed == 1, '%s: closed %d times in the end' % (where, conn.closed))
    ctx.count('traces')
    ctx.see('states', (a, b, fails))
