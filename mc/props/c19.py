"""C19: a lock is released on every way out and leaves no trace."""
import os
from itertools import product

from ..common import load, require

BOUNDS = {
    'quick': 'all histories of 2 lock episodes (5 paths x cleanup x fail_on_lock x 15 bodies, some of which change the working directory) on memory and local, refused attempts after each',
    'thorough': 'all histories of 3 episodes over 3 paths, of 2 over all',
}
ASSUMPTIONS = ['one thread: what several do is C18']
PATHS = ('a', 'new', 'la', 'dl', 'd/f')
BODIES = ('', 'write', 'raise', 'write raise', 'remove', 'try', 'nested', 'nested raise', 'replace', 'remove raise', 'write nested write', 'move', 'move raise', 'chdir', 'chdir raise')
REFUSED = ('d', 'd/none/x', 'a/x', 'loop', '')


class Boom(Exception):
    pass


def episodes(paths=PATHS):
    return [(p, c, f, b) for p in paths for c in (False, True) for f in (False, True) for b in BODIES]


def cases(ctx):
    for backend in ('memory', 'local'):
        for e in episodes():
            yield (backend, e, 2)
        if ctx.thorough:
            for e in episodes(('a', 'new', 'la')):
                yield (backend, e, 3)


LINKS = {'la': 'a', 'dl': 'target', 'loop': 'loop'}


def run(ctx, case):
    backend, first, n = case
    rest = episodes() if n == 2 else episodes(('a', 'new', 'la'))
    for tail in product(rest, repeat=n - 1):
        history(ctx, backend, (first,) + tail)


def history(ctx, backend, eps):
    ns = load()
    if backend == 'memory':
        ns.REG.cleanup(force=True)
        root = 'memory://'
    else:
        root = ctx.local_root()
    U = lambda p: ns.URI(root + '/' + p)    # noqa: E731
    st = {'a': 'A', 'b': 'B', 'd/f': 'F', 'd': None}
    links = dict(LINKS)
    U('d').mkdir()
    for p, c in st.items():
        if c is not None:
            with U(p).open('wb') as f:
                f.write(c.encode())
    for p, t in links.items():
        U(t).symlink(U(p))
    done = []
    elsewhere = None
    if backend == 'local':
        elsewhere = os.path.join(root, 'else')
        os.makedirs(os.path.join(elsewhere, 'd'))
        for p in PATHS + ('target',):
            with open(os.path.join(elsewhere, p), 'w') as f:
                f.write('decoy')
    for ep in eps:
        done.append(ep)
        if elsewhere and 'chdir' in ep[3]:
            os.chdir(root)
        try:
            episode(ns, U, st, links, ep, done, elsewhere)
        finally:
            os.chdir(ctx.scratch)
        for p in PATHS + ('target',) if elsewhere else ():
            require(os.path.exists(os.path.join(elsewhere, p)), 'a file of another directory was removed', history=done)
            with open(os.path.join(elsewhere, p)) as f:
                require(f.read() == 'decoy', 'a file of another directory has changed', history=done)
        agree(U, st, links, done)
        ctx.count('transitions')
    for p in REFUSED:
        for flags in ({}, {'cleanup': True}, {'fail_on_lock': True}):
            try:
                with U(p).lock(**flags):
                    pass
            except (OSError, ns.PathError) + lock_errors():
                pass
            else:
                require(False, 'locking %r was not refused' % p, history=done)
    agree(U, st, links, done + ['refused locks'])
    ctx.count('traces')
    ctx.see('states', (backend, sorted(st.items(), key=repr), sorted(links.items())))


def lock_errors():
    import abl.util
    return (abl.util.LockFileObtainException, abl.util.LockFileCreationException)


def place(links, p):
    while p in links:
        p = links[p]
    return p


def episode(ns, U, st, links, ep, done, elsewhere):
    path, cleanup, fail, body = ep
    at = place(links, path)
    words = body.split()
    was_link = path in links
    u = ns.URI('./' + path) if elsewhere and 'chdir' in words else U(path)
    try:
        with u.lock(fail_on_lock=fail, cleanup=cleanup) as h:
            st.setdefault(at, '')
            agree(U, st, links, done + ['inside'])
            for w in words:
                if w == 'write':
                    h.write('z')
                    h.flush()
                    st[at] += 'z'
                elif w == 'raise':
                    raise Boom()
                elif w == 'chdir':
                    if elsewhere:
                        os.chdir(elsewhere)
                elif w == 'move':
                    U(path).move(U('moved'))
                    if path in links:
                        links['moved'] = links.pop(path)
                        st.pop('moved', None)
                    else:
                        st['moved'] = st.pop(at)
                        links.pop('moved', None)
                elif w == 'remove':
                    U(path).remove()
                    if path in links:
                        del links[path]
                    else:
                        del st[at]
                elif w == 'try':
                    for other in [path] + [x for x in links if links[x] == at]:
                        if other == 'loop':
                            continue
                        for cl in (False, True):
                            try:
                                with U(other).lock(fail_on_lock=True, cleanup=cl):
                                    pass
                            except lock_errors()[0]:
                                pass
                            else:
                                require(False, 'a lock that is held was given again', history=done)
                            agree(U, st, links, done + ['after a refused try'])
                elif w == 'nested':
                    with U('b').lock() as hb:
                        hb.write('n')
                    st['b'] += 'n'
                elif w == 'replace':
                    with U(path).open('wb') as f:
                        f.write(b'new')
                    st[at] = 'new'
    except Boom:
        require('raise' in words, 'an exception from nowhere', history=done)
    else:
        require('raise' not in words, 'the exception of the block was swallowed', history=done)
    if cleanup:
        if path in links:
            del links[path]
        elif not was_link:
            st.pop(at, None)
    # and it can be taken again
    for other in ('a', 'b', path):
        p = place(links, other)
        if p not in st:
            continue
        try:
            with U(other).lock(fail_on_lock=True):
                pass
        except lock_errors()[0]:
            require(False, '%s is still locked afterwards' % other, history=done)


def agree(U, st, links, done):
    names = {}
    for p in st:
        d, _, n = p.rpartition('/')
        names.setdefault(d, set()).add(n)
    for p in links:
        names.setdefault('', set()).add(p)
    names[''] |= {'else'} & set(U('').listdir())
    for d in ('', 'd'):
        got = sorted(U(d).listdir())
        require(got == sorted(names.get(d, ())), '%r holds %s, expected %s' % (d, got, sorted(names.get(d, ()))), history=done)
    for p, c in st.items():
        if c is not None:
            with U(p).open('rb') as f:
                got = f.read()
            require(got == c.encode(), '%s is %r, expected %r' % (p, got, c), history=done)
    for p in links:
        require(U(p).islink(), '%s is no link any more' % p, history=done)
