"""C32: injected faults hit exactly the chosen path; mtimes and locks are set as asked."""
import itertools

from .. import refmodel as rm
from ..common import load, require, Violated
from ..fsdrive import Drive, sp, show_state

TREES = {
    'plain': [(('a',), ('d',)), (('a', 'f'), ('f', b'one', 0)), (('a', 'g'), ('f', b'two', 0o100)), (('b',), ('f', b'three', 0)), (('e',), ('d',))],
    'nested': [(('a',), ('d',)), (('a', 'a'), ('d',)), (('a', 'a', 'a'), ('f', b'deep', 0)), (('aa',), ('f', b'side', 0)), (('a', 'a', 'b'), ('d',))],
    'links': [(('a',), ('d',)), (('a', 'f'), ('f', b'one', 0)), (('lf',), ('l', ('a', 'f'))), (('ld',), ('l', ('a',))), (('ln',), ('l', ('no',))), (('b',), ('f', b'x', 0))],
}
BOUNDS = {
    'quick': 'three trees, every path (and a missing one) armed in each of 4 spellings, x every path x 28 operations, callbacks that raise one of 5 exceptions or return, '
             'switched off and armed again; every two paths armed at once, and one of them switched off, x 5 operations; every path x 8 times; every file x every file x every spelling locked, with and without cleanup',
    'thorough': 'two armed paths x 28 operations',
}
ASSUMPTIONS = ['what a recursive operation on a directory above or below the armed path does is not asked (it asks the armed path, too)']


class Odd(Exception):
    pass


class Worse(BaseException):
    pass


ERRORS = (lambda: OSError(13, 'denied'), lambda: KeyError('k'), lambda: Odd(), lambda: Worse(), lambda: NotImplementedError())


def ops(other):
    "operation name -> how it is called with the URI u (and another URI o)"
    return [
        ('open', lambda u, o: u.open('rb').read()), ('open', lambda u, o: w(u, 'wb')), ('open', lambda u, o: w(u, 'ab')), ('open', lambda u, o: w(u, 'w', 'x')),
        ('listdir', lambda u, o: sorted(u.listdir())), ('mkdir', lambda u, o: u.mkdir()), ('makedirs', lambda u, o: u.makedirs() and None),
        ('exists', lambda u, o: bool(u.exists())), ('isfile', lambda u, o: bool(u.isfile())), ('isdir', lambda u, o: bool(u.isdir())), ('islink', lambda u, o: bool(u.islink())),
        ('isexec', lambda u, o: u.isexec()), ('set_exec', lambda u, o: u.set_exec(0o111)), ('readlink', lambda u, o: str(u.readlink())),
        ('remove', lambda u, o: u.remove()), ('remove', lambda u, o: u.remove(recursive=True)), ('mtime', lambda u, o: u.mtime() and None),
        ('info', lambda u, o: u.info().size), ('walk', lambda u, o: [(str(r), d, f) for r, d, f in u.walk()]), ('glob', lambda u, o: [str(x) for x in u.glob('*')]),
        ('md5', lambda u, o: u.md5()), ('lock', lambda u, o: lock(u)),
        ('copy', lambda u, o: u.copy(o)), ('copy', lambda u, o: u.copy(o, recursive=True)), ('move', lambda u, o: u.move(o)),
        ('symlink', lambda u, o: u.symlink(o)), ('copystat', lambda u, o: u.copystat(o)), ('info', lambda u, o: u.info(followlinks=False).size),
    ]


def isdir(u):
    return u.get_connection().isdir(u)


def w(u, mode, data=b'new'):
    with u.open(mode) as f:
        f.write(data)


def lock(u):
    with u.lock(fail_on_lock=True) as f:
        f.write(b'locked')


def spellings(p):
    s = '/'.join(p)
    yield 'memory:///' + s
    if p:
        yield 'memory:///' + s + '/'
        yield 'memory:////' + s.replace('/', '//')
        yield ('copy', 'memory:///' + s)


def uri(ns, spelling):
    if isinstance(spelling, tuple):
        return ns.URI(ns.URI(spelling[1]))
    return ns.URI(spelling)


def build(ns, tree):
    ns.REG.cleanup(force=True)
    d = Drive(ns.URI('memory:///'), 'memory')
    for p, nd in TREES[tree]:
        if nd[0] == 'd':
            d.uri(p).mkdir()
        elif nd[0] == 'f':
            with d.uri(p).open('wb') as f:
                f.write(nd[1])
            if nd[2]:
                d.uri(p).set_exec(nd[2])
        else:
            d.uri(nd[1]).symlink(d.uri(p))
    return d


def paths_of(tree):
    return [()] + [p for p, _ in TREES[tree]] + [('no',), ('a', 'no')]


def cases(ctx):
    for tree in sorted(TREES):
        for armed in paths_of(tree):
            for n, s in enumerate(spellings(armed)):
                yield ('arm', tree, armed, n)
        for two in itertools.combinations(paths_of(tree), 2):
            yield ('arm2', tree, two)
        yield ('mtime', tree)
        yield ('lock', tree)
    yield ('separate',)


def run(ctx, case):
    globals()['run_' + case[0]](ctx, *case[1:])


def snapshot(d, st):
    "the tree with modification times; asks the backend directly, so no hook is called"
    conn = d.root.get_connection()
    out = {}
    todo = [()]
    while todo:
        p = todo.pop()
        u = d.uri(p)
        if p != () and conn.islink(u):
            out[p] = ('l', str(conn.readlink(u)))
        elif conn.isdir(u):
            out[p] = ('d', conn.mtime(u) if p else None)
            todo.extend(p + (n,) for n in conn.listdir(u))
        else:
            with conn.open(u, 'rb', '') as f:
                out[p] = ('f', f.read(), conn.info(u).mode, conn.mtime(u))
    return out


def without_times(snap):
    return {p: nd[:1] if nd[0] == 'd' else nd[:3] if nd[0] == 'f' else nd for p, nd in snap.items()}


def involves(st, armed, p):
    "may an operation on p, and what is below or where it leads, ask the armed path?"
    if armed[:len(p)] == p or p[:len(armed)] == armed:
        return True
    # over links: anything
    return any(nd[0] == 'l' for nd in st.values()) and (any(rm.islink(st, p[:n]) for n in range(1, len(p) + 1)) or
                                                         any(rm.islink(st, armed[:n]) for n in range(1, len(armed) + 1)))


def call(f, *args):
    try:
        return ('ok', f(*args))
    except BaseException as e:
        if type(e).__name__ == 'Hang':
            raise
        return ('no', e)


def outcome(r):
    return r if r[0] == 'ok' else ('no', type(r[1]).__name__, str(r[1]))


def run_arm(ctx, tree, armed, nth):
    ns = load()
    spelling = list(spellings(armed))[nth]
    st = dict(TREES[tree])
    targets = paths_of(tree)
    other = ('fresh',)
    for p in targets:
        for s in (list(spellings(p)) if p == armed else list(spellings(p))[:1]):
            for i, (name, f) in enumerate(ops(other)):
                # what it does unarmed
                d = build(ns, tree)
                plain = call(f, uri(ns, s), d.uri(other))
                after = without_times(snapshot(d, st))
                for mode, err in ([('return', None)] + [('raise', e) for e in (ERRORS if nth == 0 and p == armed else ERRORS[:1])]):
                    d = build(ns, tree)
                    log = []
                    exc = err() if err else None

                    def callback(path, func):
                        log.append((path, func, snapshot(d, st)))
                        if exc is not None:
                            raise exc
                    uri(ns, spelling)._manipulate(next_op_callback=callback)
                    before = snapshot(d, st)
                    require(not log, 'the callback was called when it was set')
                    u = uri(ns, s)
                    got = call(f, u, d.uri(other))
                    what = dict(tree=tree, armed=str(spelling), path=str(s), operation='%s (%d)' % (name, i), outcome=repr(outcome(got))[:200])
                    if p == armed:
                        require(log, 'an operation on the armed path did not call the callback', **what)
                        path, func, then = log[0]
                        require(path == u and func.__name__ == name, 'the callback was called with something else', got=[str(path), func.__name__], **what)
                        require(then == before, 'the callback was not called before the operation', **what)
                        if exc is not None:
                            require(got[0] == 'no' and got[1] is exc, 'the exception of the callback did not come out', **what)
                            require(snapshot(d, st) == before, 'a prevented operation changed something', before=show_state(without_times(before)),
                                    after=show_state(without_times(snapshot(d, st))), **what)
                            require(len(log) == 1, 'a prevented operation went on', **what)
                            # and so does every operation from now on, whatever happens elsewhere in between
                            d.uri(('aside',)).exists()
                            for k in (i, (i + 1) % 28, (i + 7) % 28):
                                n = len(log)
                                got = call(ops(other)[k][1], uri(ns, s), d.uri(other))
                                require(len(log) == n + 1 and got[0] == 'no' and got[1] is exc and snapshot(d, st) == before,
                                        'only the first operation on an armed path is prevented', then=ops(other)[k][0], calls=len(log), got=repr(got)[:200], **what)
                        else:
                            n = len(log)
                            call(lambda: uri(ns, s).exists())
                            require(len(log) == n + 1, 'only the first operation on an armed path calls the callback', **what)
                    elif not involves(st, armed, p):
                        require(not log, 'an operation on another path called the callback', **what)
                    if exc is None or not log:
                        require(outcome(got) == outcome(plain), 'the operation does something else when a path is armed', expected=repr(outcome(plain)), **what)
                        require(without_times(snapshot(d, st)) == after, 'the operation does something else when a path is armed', **what)
                    ctx.count('transitions')
                # None switches it off, also through another spelling; then it can be armed again
                if p == armed:
                    for off in spellings(armed):
                        d = build(ns, tree)
                        log = []

                        def boom(path, func):
                            log.append(path)
                            raise OSError(13, 'denied')
                        uri(ns, spelling)._manipulate(next_op_callback=boom)
                        r = call(lambda: uri(ns, off)._manipulate(next_op_callback=None))
                        require(r[0] == 'ok', 'a callback cannot be switched off', armed=str(spelling), off=str(off), error=repr(r[1]))
                        got = call(f, uri(ns, s), d.uri(other))
                        require(not log and outcome(got) == outcome(plain) and without_times(snapshot(d, st)) == after, 'a callback is still there after it was switched off',
                                armed=str(spelling), path=str(s), operation=name)
                        d = build(ns, tree)
                        uri(ns, off)._manipulate(next_op_callback=None)
                        uri(ns, spelling)._manipulate(next_op_callback=boom)
                        got = call(f, uri(ns, s), d.uri(other))
                        require(log and got[0] == 'no', 'a callback that was set again is not called', armed=str(spelling), path=str(s), operation=name)
                        ctx.count('transitions', 2)
            ctx.see('states', (tree, armed, nth, p))
    ctx.count('traces')


def run_arm2(ctx, tree, two):
    "two armed paths: each has its own callback"
    ns = load()
    st = dict(TREES[tree])
    for p in two:
        q = two[1 - two.index(p)]
        for i, (name, f) in enumerate(ops(('fresh',))):
            if not ctx.thorough and i not in (0, 4, 8, 14, 22):
                continue
            for off in (False, True):
                d = build(ns, tree)
                log = []

                def make(which):
                    def callback(path, func):
                        log.append(which)
                        raise OSError(13, 'denied')
                    return callback
                d.uri(p)._manipulate(next_op_callback=make(p))
                d.uri(q)._manipulate(next_op_callback=make(q))
                if off:
                    d.uri(q)._manipulate(next_op_callback=None)
                before = snapshot(d, st)
                got = call(f, d.uri(p), d.uri(('fresh',)))
                require(log == [p] and got[0] == 'no' and snapshot(d, st) == before, 'with two armed paths the wrong callback was called', tree=tree, armed=list(two),
                        path=p, off=off, operation=name, called=log)
                ctx.count('transitions')
    ctx.count('traces')


def run_mtime(ctx, tree):
    ns = load()
    st = dict(TREES[tree])
    for p in paths_of(tree)[1:]:
        for s in spellings(p):
            for t in (0, 1, 1.5, 1e9, 4e9, -1.0, 1234567890.123456, 2 ** 40):
                d = build(ns, tree)
                before = snapshot(d, st)
                got = call(lambda: uri(ns, s)._manipulate(mtime=t))
                try:
                    real = rm.lookup(st, p)
                except rm.Err:
                    require(got[0] == 'no' and isinstance(got[1], OSError), 'the mtime of a missing file was set', tree=tree, path=str(s), got=repr(got))
                    require(snapshot(d, st) == before, 'a refused _manipulate changed something', tree=tree, path=str(s))
                    ctx.count('transitions')
                    continue
                require(got[0] == 'ok', '_manipulate failed', tree=tree, path=str(s), error=repr(got[1]))
                want = dict(before)
                want[real] = want[real][:-1] + (t,)
                require(snapshot(d, st) == want, 'not exactly the mtime of the file was set', tree=tree, path=str(s), time=t)
                require(uri(ns, s).mtime() == t and d.uri(real).mtime() == t and d.uri(real).info().mtime == t, 'mtime() is not what was set', tree=tree, path=str(s), time=t,
                        got=uri(ns, s).mtime())
                if st[real][0] == 'f':
                    with d.uri(real).open('ab') as f:
                        f.write(b'+')
                    require(d.uri(real).mtime() != t, 'writing does not renew the mtime any more', tree=tree, path=str(s), time=t)
                ctx.count('transitions')
        ctx.see('states', (tree, p, 'mtime'))
    ctx.count('traces')


def run_lock(ctx, tree):
    ns = load()
    from abl.util import LockFileObtainException
    st = dict(TREES[tree])
    files = [p for p in paths_of(tree) if rm.isfile(st, p)]
    # spelled through links to directories, too
    names = files + [q + r[len(rm.lookup(st, q)):] for q in paths_of(tree) if rm.islink(st, q) and rm.isdir(st, q) for r in files
                     if r[:len(rm.lookup(st, q))] == rm.lookup(st, q)]
    for p in names:
        for s in spellings(p):
            for when in ('existing', 'before'):
                if when == 'before' and (p not in st or st[p][0] != 'f'):
                    continue
                d = build(ns, tree)
                if when == 'before':
                    # locked first, created then
                    d.uri(p).remove()
                before = snapshot(d, st)
                uri(ns, s)._manipulate(lock=True)
                require(snapshot(d, st) == before, 'locking changed something', tree=tree, path=str(s))
                if when == 'before':
                    with d.uri(p).open('wb') as f:
                        f.write(b'again')
                for held in (True, False):
                    for q in names:
                        same = rm.lookup(st, q) == rm.lookup(st, p)
                        for t in spellings(q):
                            for cleanup in (False, True):
                                if cleanup and not (held and same):
                                    continue
                                snap = snapshot(d, st)
                                entered = False
                                try:
                                    with uri(ns, t).lock(fail_on_lock=True, cleanup=cleanup):
                                        entered = True
                                except LockFileObtainException:
                                    pass
                                want = not (held and same)
                                require(entered == want, 'a file is %s' % ('not locked after _manipulate(lock=True)' if entered else 'locked that was not, or is no more'),
                                        tree=tree, locked=str(s), tried=str(t), held=held, when=when)
                                if not entered:
                                    require(snapshot(d, st) == snap, 'a lock that was not obtained changed something', tree=tree, locked=str(s), tried=str(t))
                                ctx.count('transitions')
                    if held:
                        uri(ns, s)._manipulate(unlock=True)
        ctx.see('states', (tree, p, 'lock'))
    # both at once, and nothing at all
    d = build(ns, tree)
    p = files[0]
    snap = snapshot(d, st)
    d.uri(p)._manipulate()
    d.uri(p)._manipulate(lock=False, unlock=False)
    require(snapshot(d, st) == snap, '_manipulate() without a wish changed something', tree=tree)
    d.uri(p)._manipulate(lock=True, mtime=7.0)
    require(d.uri(p).mtime() == 7.0, 'mtime is ignored together with lock', tree=tree)
    try:
        with d.uri(p).lock(fail_on_lock=True):
            raise Violated('lock is ignored together with mtime', tree=tree)
    except LockFileObtainException:
        pass
    d.uri(p)._manipulate(unlock=True)
    with d.uri(p).lock(fail_on_lock=True):
        pass
    ctx.count('traces')


def run_separate(ctx):
    "another memory file system is not concerned"
    ns = load()
    ns.REG.cleanup(force=True)
    a, b = ns.URI('memory:///a'), ns.URI('memory:///a?fs=other')
    c = ns.URI('memory:///a', fs='third')
    for u in (a, b, c):
        w(u, 'wb')
    for u in (a, b, c):
        log = []
        u._manipulate(next_op_callback=lambda path, func: log.append(path), mtime=5.0)
        for v in (a, b, c):
            del log[:]
            v.exists()
            require(bool(log) == (v is u), 'a callback for one memory file system is called by another', armed=str(u), path=str(v))
            require((v.mtime() == 5.0) == (v is u), 'the mtime of another file was set', armed=str(u), path=str(v))
            ctx.count('transitions')
        u._manipulate(next_op_callback=None, mtime=6.0)
    ctx.count('traces')
    ns.REG.cleanup(force=True)
