"""C13: permission bits and metadata are kept and changed as asked."""
from itertools import product

from .. import fsdrive as fd
from ..common import load, require, Violated

OPS = (
    [('setexec', 'a', m) for m in (0, 0o100, 0o010, 0o001, 0o111)] + [('setexec', 'l', 0o011)] +
    [('mode', 'a', m) for m in (0o600, 0o640, 0o755)] + [('mode', 'l', 0o711)] + [('mode', 'b', 0o701)] +
    [('mtime', 'a', 1000000000.5), ('mtime', 'l', 4100000000.25)] +
    [('setexec', 'd', 0o110), ('mode', 'd', 0o1750), ('mode', 'a', 0o1644), ('both', 'b', 0o620, 1200000000.5), ('none', 'a'), ('link itself', 0o700, 1300000000.5),
     ('copystat', 'd', 'a'), ('copystat', 'a', 'd')] +
    [('copystat', 'a', 'b'), ('copystat', 'b', 'l'), ('copystat', 'l', 'b'), ('copystat', 'l', 'l2')] +
    [('write', 'a', b'new'), ('append', 'l', b'more'), ('read', 'a'), ('lock', 'a'), ('rename', 'a'), ('neighbour',)])
BOUNDS = {
    'quick': 'all histories of 3 out of %d operations on two files, links to them and a directory, memory and local, with all queries after each' % len(OPS),
    'thorough': 'all histories of 4 operations on memory, 3 on local with two initial states',
}
ASSUMPTIONS = ['Linux permissions; of the mode bits beyond 0o777, the sticky bit']


def cases(ctx):
    for b in ('memory', 'local'):
        n = 4 if ctx.thorough and b == 'memory' else 3
        for first in product(range(len(OPS)), repeat=2):
            yield (b, n, first)


class M(object):
    def __init__(self, mode, mtime, data):
        self.mode, self.mtime, self.data = mode, mtime, data


def run(ctx, case):
    import os
    backend, n, first = case
    ns = load()
    for rest in product(range(len(OPS)), repeat=n - 2):
        seq = [OPS[i] for i in first + rest]
        if backend == 'memory':
            ns.REG.cleanup(force=True)
            root = ns.URI('memory:///')
        else:
            root = ns.URI(ctx.local_root())
        u = {x: root / x for x in ('a', 'b', 'l', 'l2', 'c', 'd')}
        for x in 'ab':
            with u[x].open('wb') as f:
                f.write(x.encode() * 5)
        u['d'].mkdir()
        u['a'].symlink(u['l'])
        u['b'].symlink(u['l2'])
        m = {x: M(u[x].info().mode & 0o7777, stamp(u[x].info().mtime), x.encode() * 5) for x in 'ab'}
        m['d'] = M(u['d'].info().mode & 0o7777, stamp(u['d'].info().mtime), None)
        i = u['l'].info(followlinks=False)
        link = [i.mode, stamp(i.mtime) if backend == 'memory' else None]
        for i, op in enumerate(seq):
            tgt = m.get('a' if op[1] == 'l' else op[1]) if len(op) > 1 else None
            k = op[0]
            what = '%s: %r after %r' % (backend, op, seq[:i])
            if k == 'setexec':
                u[op[1]].set_exec(op[2])
                tgt.mode = tgt.mode & ~0o111 | op[2]
            elif k == 'mode':
                u[op[1]].info(dict(mode=op[2]))
                tgt.mode = op[2]
            elif k == 'none':
                u[op[1]].info({})
            elif k == 'both':
                if backend == 'memory':
                    u[op[1]].info(dict(mode=op[2], mtime=op[3]))
                    tgt.mtime = op[3]
                else:
                    u[op[1]].info(dict(mode=op[2]))
                tgt.mode = op[2]
            elif k == 'link itself':
                try:
                    u['l'].info(dict(mode=op[1], mtime=op[2]), followlinks=False)
                except (NotImplementedError, OSError):
                    # not on Linux
                    require(backend == 'local', what + ': refused')
                else:
                    link[0] = link[0] & ~0o777 | op[1]
                    if backend == 'memory':
                        link[1] = op[2]
                u['a'].info(dict(mode=m['a'].mode), followlinks=False)
            elif k == 'mtime':
                if backend == 'memory':
                    u[op[1]].info(dict(mtime=op[2]))
                else:
                    os.utime(u[op[1]].path, (op[2], op[2]))
                tgt.mtime = op[2] if backend == 'memory' else int(op[2])
            elif k == 'copystat':
                s, t = (m[{'l': 'a', 'l2': 'b'}.get(x, x)] for x in op[1:])
                u[op[1]].copystat(u[op[2]])
                t.mode, t.mtime = s.mode, s.mtime
            elif k == 'write':
                with u[op[1]].open('wb') as f:
                    f.write(op[2])
                tgt.data, tgt.mtime = op[2], None
            elif k == 'append':
                with u[op[1]].open('ab') as f:
                    f.write(op[2])
                tgt.data, tgt.mtime = tgt.data + op[2], None
            elif k == 'read':
                with u[op[1]].open('rb') as f:
                    require(f.read() == tgt.data, what + ': wrong content')
                u[op[1]].md5(), u[op[1]].exists(), u[op[1]].isexec()
            elif k == 'lock':
                with u[op[1]].lock():
                    pass
            elif k == 'rename':
                u['a'].move(u['c'])
                u['c'].move(u['a'])
            elif k == 'neighbour':
                with u['c'].open('wb') as f:
                    f.write(b'x')
                u['c'].set_exec(0o111)
                u['c'].remove()
                for _ in root.walk():
                    pass
            ctx.count('transitions')
            check(ctx, u, m, what, link, backend)
        ctx.count('traces')
        ctx.see('states', (backend, tuple((x.mode, x.mtime, x.data) for x in m.values())))
    ctx.sample({'backend': backend, 'history': [repr(OPS[i]) for i in first]})


def stamp(t):
    return t.timestamp() if hasattr(t, 'timestamp') else t


def check(ctx, u, m, what, link, backend):
    for x in ('a', 'b', 'l', 'd'):
        w = m['a' if x == 'l' else x]
        i = u[x].info()
        require(i.mode & 0o7777 == w.mode, '%s: mode of %s is %o, expected %o' % (what, x, i.mode & 0o7777, w.mode))
        if w.data is not None:
            require(i.size == len(w.data), '%s: size of %s is %r, expected %d' % (what, x, i.size, len(w.data)))
        t = stamp(i.mtime)
        require(stamp(u[x].mtime()) == t, '%s: mtime() and info().mtime of %s differ' % (what, x))
        if w.mtime is None:
            require(1500000000 < t < 4000000000, '%s: mtime of the written %s is %r' % (what, x, t))
        else:
            require(abs(t - w.mtime) < 1e-6, '%s: mtime of %s is %r, expected %r' % (what, x, t, w.mtime))
        for mask in (0o100, 0o010, 0o001, 0o111, 0o110):
            require(bool(u[x].isexec(mask)) == bool(w.mode & mask), '%s: isexec(%o) of %s with mode %o' % (what, mask, x, w.mode))
        require(bool(u[x].isexec()) == bool(w.mode & 0o111), '%s: isexec() of %s with mode %o' % (what, x, w.mode))
    i = u['l'].info(followlinks=False)
    require([i.mode, link[1] and stamp(i.mtime)] == link, '%s: the mode or mtime of the link itself is %r, expected %r' % (what, [i.mode, stamp(i.mtime)], link))
    require(u['l'].islink() and u['l'].readlink() == u['a'], '%s: the link changed' % what)
    require(u['d'].isdir(), '%s: the directory changed' % what)
