"""C18: at most one holder has a lock at a time."""
import os
import sys

from .. import sched
from ..common import load, require

BOUNDS = {
    'quick': '31 scenarios of 2 and 3 threads on memory and 19 on local files, at most 2, 1 or 0 preemptions (beside free switches inside and after the critical sections), '
             'at every bytecode that can touch shared state',
    'thorough': 'the same with one preemption more',
}
ASSUMPTIONS = ['switches between threads happen between bytecodes (the GIL); code below /repo/abl is preempted, the standard library is not',
               'flock of two open files in one process excludes as flock of two processes does']
SHARDS = 8
CASE_TIMEOUT = 800

# words: L lock, T try (fail_on_lock), K lock and clean up, Q try and clean up, X the block fails, then a path name
# small letter: others may go on inside and after it, free of charge
# N: lock the path, then b inside;  M: lock and wait for the mark of another thread inside;  !: set the mark
SCENARIOS = [
    # name, threads, on local too, bounds: memory quick, thorough
    ('two', ('La', 'La'), True, 2, 2),
    ('two-slow', ('la', 'la'), True, 1, 2),
    ('new-file', ('Lnew', 'Lnew'), True, 2, 2),
    ('spelling', ('la', 'la2'), True, 1, 2),
    ('link', ('la', 'lla'), True, 1, 2),
    ('linked-dir', ('lf', 'llf'), False, 1, 2),
    ('try', ('La', 'Ta'), True, 1, 2),
    ('try-slow', ('la', 'ta'), True, 1, 2),
    ('try-try', ('ta', 'ta'), True, 1, 2),
    ('fails', ('xa', 'la'), True, 1, 2),
    ('cleanup', ('ka', 'la'), True, 1, 2),
    ('cleanup-both', ('Ka', 'Ka'), True, 1, 2),
    ('cleanup-try', ('ka', 'ta'), True, 1, 2),
    ('try-cleanup', ('La', 'Qa'), True, 1, 2),
    ('others', ('Ma', 'Lb !'), True, 1, 2),
    ('try-held', ('Ma', 'Ta !'), True, 1, 2),
    ('try-link-held', ('Ma', 'Tla !'), True, 1, 2),
    ('try-cleanup-held', ('Ma', 'Qa !'), True, 1, 2),
    ('same-name', ('Ma', 'Lg !'), True, 1, 2),
    ('same-name-new', ('Mnew', 'Tnew2 !'), False, 1, 2),
    ('nested', ('Na', 'lb'), True, 1, 2),
    ('three', ('La', 'La', 'La'), False, 1, 2),
    ('three-slow', ('la', 'la', 'la'), False, 0, 1),
    ('three-try', ('la', 'ta', 'ta'), False, 0, 1),
    ('again', ('la la', 'ta'), False, 1, 2),
    ('again-mixed', ('ka la', 'la ta'), False, 0, 1),
    ('cleanup-three', ('ka', 'la', 'ta'), False, 0, 1),
    ('linked-cleanup', ('klf', 'lf', 'llf'), False, 0, 1),
    ('linked-new', ('kln lln', 'ln'), False, 0, 1),
    ('linked-new-try', ('kln tln', 'kn'), False, 0, 1),
    ('same-uri', ('ls', 'ls'), False, 1, 2),
]
PATHS = {'a': 'a', 'a2': '/a', 'b': 'b', 'new': 'new', 'la': 'la', 'f': 'd/f', 'lf': 'ld/f', 'n': 'd/n', 'ln': 'ld/n', 'g': 'd/a', 'new2': 'd/new'}


class Boom(Exception):
    pass


def setup(ctx):
    sched.install()
    load()
    sys.stderr = open('/dev/null', 'w')


def cases(ctx):
    for s in SCENARIOS:
        for backend in ('memory', 'local') if s[2] else ('memory',):
            for k in range(SHARDS):
                yield (s[0], backend, k)


def run(ctx, case):
    ns = load()
    name, backend, k = case
    _, threads, _, quick, thorough = [s for s in SCENARIOS if s[0] == name][0]
    bound = thorough if ctx.thorough else quick
    if backend == 'local':
        bound = 2 if ctx.thorough else 1
        root = ctx.local_root()
    else:
        root = 'memory://'
        ns.REG.cleanup(force=True)
        ns.URI('memory:///').get_connection()
    import abl.util
    Obtain = abl.util.LockFileObtainException
    log = []
    state = {}

    def make():
        del log[:]
        state['mark'] = False
        if backend == 'memory':
            ns.REG.cleanup(force=True)
            ns.URI('memory:///').get_connection()
        else:
            ctx.local_root()
        U = ns.URI
        for p in ('a', 'b'):
            with U(root + '/' + p).open('wb') as f:
                f.write(b'0')
        U(root + '/d').mkdir()
        with U(root + '/d/f').open('wb') as f:
            f.write(b'0')
        U(root + '/a').symlink(U(root + '/la'))
        U(root + '/d').symlink(U(root + '/ld'))
        shared = U(root + '/a')
        uris = [{w: shared if w[1:] == 's' else U(root + '/' + PATHS[w[1:]]) for w in t.split() if w != '!'} for t in threads]
        b = [U(root + '/b') for _ in threads]

        def critical(tid, h, u, what, slow=False):
            r = sched.run_of_me()
            log.append(('in', tid, what))
            n = len([x for x in log if x[0] == 'in'])
            h.write('x')
            h.flush()
            r.free() if slow else r.point()
            log.append(('out', tid, what))

        def program(tid, text):
            def go():
                r = sched.run_of_me()
                for word in text.split():
                    if word == '!':
                        state['mark'] = True
                        r.point()
                        continue
                    u = uris[tid][word]
                    what = {'a2': 'a', 'la': 'a', 's': 'a', 'lf': 'f', 'ln': 'n'}.get(word[1:], word[1:])
                    kind = word[0].upper()
                    slow = word[0] != kind
                    log.append(('ask', tid, what))
                    try:
                        with u.lock(fail_on_lock=kind in 'TQ', cleanup=kind in 'KQ') as h:
                            critical(tid, h, u, what, slow)
                            if kind == 'X':
                                raise Boom()
                            if kind == 'M':
                                log.append(('in', tid, what))
                                r.block(lambda: state['mark'])
                                log.append(('out', tid, what))
                            if kind == 'N':
                                with b[tid].lock() as hb:
                                    critical(tid, hb, b[tid], 'b')
                        log.append(('free', tid, what))
                        if slow:
                            r.free()
                    except Boom:
                        log.append(('free', tid, what))
                    except Obtain:
                        require(kind in 'TQ', 'a lock that waits was refused')
                        log.append(('refused', tid, what))
            return go
        return [program(i, t) for i, t in enumerate(threads)]

    def content(p):
        try:
            with ns.URI(root + '/' + p).open('rb') as f:
                return f.read()
        except OSError:
            return None

    def check(r):
        ctx.count('transitions', r.npoints)
        ctx.see('states', (name, backend, tuple(log)))
        how = {'scenario': name, 'backend': backend, 'log': log, 'schedule': [p[1] for p in r.points if len(p[0]) > 1][:400]}
        require(not r.deadlock, 'threads wait for each other for ever', **how)
        require(not r.abandoned, 'the threads did not come to an end', **how)
        for t in r.threads:
            require(t.error is None, 'a thread failed: %r' % t.error, **how)
        holder = {}
        for i, x in enumerate(log):
            if x[0] == 'in':
                require(x[2] not in holder, 'two threads hold the lock at the same time', **how)
                holder[x[2]] = x[1]
            elif x[0] == 'out':
                del holder[x[2]]
            elif x[0] == 'refused':
                # somebody was between asking and having given it back
                start = max(j for j in range(i) if log[j][:2] == ('ask', x[1]))
                busy = False
                for j, y in enumerate(log[:i]):
                    if y[0] == 'ask' and y[2] == x[2] and y[1] != x[1]:
                        end = [n for n in range(j, len(log)) if log[n][0] in ('free', 'refused') and log[n][1:] == y[1:]]
                        if end and log[end[0]][0] == 'free' and end[0] > start:
                            busy = True
                require(busy, 'refused though nobody had the lock', **how)
        if name in ('try-held', 'try-cleanup-held'):
            ins = [i for i, x in enumerate(log) if x[0] == 'in' and x[1] == 0]
            asks = [i for i, x in enumerate(log) if x[0] == 'ask' and x[1] == 1]
            if ins and ins[0] < asks[0]:
                require([x for x in log if x[0] == 'refused'], 'not refused though the lock was held', **how)
        # what the holders wrote is all there
        if not any(w[0] in 'KkQq' for t in threads for w in t.split()):
            for p, first in (('a', b'0'), ('b', b'0'), ('d/f', b'0'), ('new', b'')):
                n = len([x for x in log if x[0] == 'in' and x[2] == p.rpartition('/')[2]])
                n -= sum(1 for x in log if x[0] == 'in' and x[2] == p and any(w.upper() == 'M' + p.upper() for w in threads[x[1]].split())) // 2
                got = content(p)
                if p == 'new' and not any('new' in t for t in threads):
                    require(got is None, 'a file appeared', **how)
                else:
                    require(got == first + b'x' * n, '%s is %r after %d locks' % (p, got, n), **how)
        elif name == 'cleanup-both':
            require(content('a') is None, 'the file was not cleaned up', **how)
        # and can be locked again
        with ns.URI(root + '/a').lock(fail_on_lock=True):
            pass
    n = sched.schedules(make, bound, check, shard=(k, SHARDS), private=None if 'shared' in name or 's' in [w[1:] for t in threads for w in t.split()] else (ns.fs.BaseUri, ns.base.simpleuri.UriParse))
    ctx.count('traces', n)
    ctx.sample({'scenario': name, 'backend': backend, 'threads': threads, 'schedules of this part': n})
