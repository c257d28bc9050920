"""C16: connections are safe to look up, create and expire from several threads."""
import sys

from .. import sched
from ..common import load, require

BOUNDS = {
    'quick': '13 scenarios of 2 threads with at most 2 preemptions (1 preemption for 3 threads), at every bytecode that can touch shared state',
    'thorough': 'the same with 3 preemptions for the direct scenarios, 2 elsewhere',
}
ASSUMPTIONS = ['switches between threads happen between bytecodes (the GIL); code below /repo/abl is preempted, the standard library is not']
SHARDS = 8
CASE_TIMEOUT = 800

# name: (threads, existing idle connections, may connections go away, ...)
# u: use a URI;  g: get_connection() alone;  c: clean-up;  F: forced clean-up;  S: shutdown;  L: the cleaner's loop
SCENARIOS = [
    # name, threads, before, bound (quick), bound (thorough)
    ('same', ('uA', 'uA2'), '', 2, 2),
    ('same-direct', ('gA', 'gA2'), '', 2, 3),
    ('shared-uri', ('us', 'us'), '', 2, 2),
    ('other-key', ('gA', 'gB'), '', 2, 3),
    ('other-scheme', ('gA', 'gC'), '', 2, 3),
    ('use-force', ('uA', 'F'), '', 2, 3),
    ('twice-force', ('gA gA', 'F'), '', 2, 2),
    ('use-expire', ('uA', 'c'), 'A', 2, 3),
    ('expire-twice', ('c', 'c', 'gA'), 'AB', 1, 2),
    ('force-twice', ('F', 'F'), 'AB', 2, 3),
    ('shutdown', ('gA', 'S'), 'AC', 2, 3),
    ('bad-close', ('gB', 'c'), 'XB', 2, 3),
    ('three', ('gA', 'gA2', 'gA'), '', 1, 2),
    ('two-expire', ('gA', 'gA2', 'c'), 'A', 1, 2),
    ('loop', ('L', 'gA', 'S'), 'A', 1, 2),
    ('nested', ('uN', 'gA'), '', 2, 2),
]
TEXT = {
    'A': ('rec://u@h/a', {}), 'A2': ('rec://h/b', {'username': 'u'}), 'B': ('rec://u@h2/', {}), 'C': ('rec2://u@h/a', {}),
    'X': ('rec://bad/x', {}), 'N': ('rec3://n/x', {}),
}


def setup(ctx):
    sched.install()
    load()
    sys.stderr = open('/dev/null', 'w')


def cases(ctx):
    for s in SCENARIOS:
        for k in range(SHARDS):
            yield (s[0], k)


LOG = []


def backends(ns):
    base = ns.plug.RecordingFileSystem

    def point():
        r = sched.run_of_me()
        if r is not None:
            r.point()

    class Rec(base):
        def __init__(self, *a, **kw):
            LOG.append(('create', self))
            point()
            base.__init__(self, *a, **kw)
            self.closed = 0
            point()

        def exists(self, path):
            LOG.append(('call', self, path))
            return True

        def close(self):
            LOG.append(('close', self))
            point()
            self.closed += 1
            if self.hostname == 'bad':
                raise RuntimeError('closing failed')

    class Rec3(Rec):
        "its connections need another one, as an archive needs that of its file"
        scheme = 'rec3'

        def __init__(self, *a, **kw):
            self.inner = ns.URI('rec://u@h/inner')
            self.inner.exists()
            Rec.__init__(self, *a, **kw)
    return {'rec': Rec, 'rec2': Rec, 'rec3': Rec3}


def key(u):
    return (u.scheme, u.hostname or '', u.username or '')


def run(ctx, case):
    ns = load()
    name, k = case
    _, threads, before, quick, thorough = [s for s in SCENARIOS if s[0] == name][0]
    bound = thorough if ctx.thorough else quick
    factories = backends(ns)
    state = {}
    ns.base.fs.SCHEME_REGISTRY['rec3'] = ns.base.fs.BaseUri

    def make():
        schemes = dict(ns.REG.schemes)
        new = ns.fs.ConnectionRegistry()
        ns.REG.__dict__.clear()
        ns.REG.__dict__.update(new.__dict__)
        schemes.update(factories)
        for scheme, f in schemes.items():
            ns.REG.register(scheme, f)
        del LOG[:]
        for x in before:
            text, kw = TEXT[x]
            ns.URI(text, **dict(kw)).get_connection().last_used = -1e6
        state['first'] = [x[1] for x in LOG if x[0] == 'create']
        shared = ns.URI('rec://u@h/shared')

        def program(tid, text):
            def go():
                for word in text.split():
                    if word[0] in 'ug':
                        u = shared if word == 'us' else uris[tid][word]
                        LOG.append(('ask', tid, key(u)))
                        if word[0] == 'u':
                            u.exists()
                        else:
                            conn = u.get_connection()
                            LOG.append(('call', conn, u))
                    elif word == 'c':
                        ns.REG.cleanup()
                    elif word == 'F':
                        ns.REG.cleanup(force=True)
                    elif word == 'S':
                        ns.REG.shutdown()
                    elif word == 'L':
                        ns.REG.cleaner()
                LOG.append(('end', tid))
            return go
        uris = [{w: ns.URI(TEXT[w[1:]][0], **dict(TEXT[w[1:]][1])) for w in t.split() if w[0] in 'ug' and w != 'us'} for t in threads]
        return [program(i, t) for i, t in enumerate(threads)]

    words = ' '.join(threads).split()
    forced = 'F' in words or 'S' in words
    expiring = forced or 'c' in words or 'L' in words

    def check(r):
        ctx.count('transitions', r.npoints)
        ctx.see('states', [x[:1] + tuple(id(y) % 1 if not isinstance(y, (int, str, tuple)) else y for y in x[1:]) for x in LOG] + [name])
        how = {'schedule': [p[1] for p in r.points if len(p[0]) > 1][:400], 'log': [[str(y)[:80] for y in x] for x in LOG][:60], 'scenario': name}
        require(not r.deadlock, 'threads wait for each other for ever', **how)
        require(not r.abandoned, 'the threads did not come to an end', **how)
        for t in r.threads:
            require(t.error is None, 'a thread failed: %r' % t.error, **how)
        asked = {}
        created = {}
        for i, x in enumerate(LOG):
            if x[0] == 'create':
                created[x[1]] = i
        for conn in created:
            require(conn.hostname is not None, 'a connection was not initialised', **how)
        for i, x in enumerate(LOG):
            if x[0] != 'call':
                continue
            _, conn, u = x
            require(conn in created, 'a connection nobody created', **how)
            require((conn.scheme if conn.scheme == 'rec3' else u.scheme, conn.hostname or '', conn.username or '') == key(u),
                    'the connection of %s:%s@%s serves %s' % (conn.scheme, conn.username, conn.hostname, u), **how)
            ask = max(j for j in range(i) if LOG[j][0] == 'ask')
            # the earliest this thread can have asked
            asks = [j for j in range(i) if LOG[j][0] == 'ask' and LOG[j][2] == key(u)]
            ask = min(asks[-len(threads):] or [0])
            require(('close', conn) not in LOG[:ask], 'a thread was handed a connection that had been closed', **how)
            if not forced:
                require(('close', conn) not in LOG, 'a connection was closed though it had just been used', **how)
        by_key = {}
        for conn in created:
            by_key.setdefault((type(conn), conn.extras_key if hasattr(conn, 'extras_key') else (conn.hostname, conn.username)), []).append(conn)
        if not expiring:
            n_keys = len({key(x[2]) for x in LOG if x[0] == 'call'})
            require(len(created) == n_keys, '%d connections were created for %d sets of parameters' % (len(created), n_keys), **how)
        for conn in created:
            require(LOG.count(('close', conn)) <= 1, 'a connection was closed twice', **how)
        ns.REG.cleanup(force=True)
        for conn in created:
            require(LOG.count(('close', conn)) == 1, 'a connection was closed %d times in the end' % LOG.count(('close', conn)), **how)
    private = None if 'us' in words else (ns.fs.BaseUri, ns.base.simpleuri.UriParse)
    n = sched.schedules(make, bound, check, shard=(k, SHARDS), private=private)
    ctx.count('traces', n)
    ctx.sample({'scenario': name, 'threads': threads, 'schedules of this part': n})
