"""C09: a single-file copy copies the file and harms nothing else.

All kinds of source x kinds of target x sizes x flags x backend pairs.
"""
import os

from .. import fsdrive as fd
from .. import mixed
from .. import refmodel as rm
from .. import shapes
from ..common import require
from .c04 import blob

BOUNDS = {
    'quick': '8 sources x 19 targets x followlinks on and off x sizes 0, 1, 8192, 8193, 20000 x modes none, 101, 111 x 11 backend pairs; 2 sources x 3 targets x sizes 65537, 1048577 on each pair',
    'thorough': 'sizes 0, 1, 2, 8191, 8192, 8193, 16384, 16385, 20000, 100000',
}
ASSUMPTIONS = ['zip: no links, modes or times']
SIZES = {'quick': (0, 1, 8192, 8193, 20000), 'thorough': (0, 1, 2, 8191, 8192, 8193, 16384, 16385, 20000, 100000)}
LARGE = (65537, (1 << 20) + 1)
SOURCES = (('S', 'file'), ('S', 'lfile'), ('S', 'llfile'), ('S', 'd', 'f'), ('S', 'dangling'), ('S', 'd'), ('S', 'ld'), ('S', 'nope'),
           ('S', 'ld', 'f'))
TARGETS = (('D', 'new'), ('D',), ('D', 'longer'), ('D', 'shorter'), ('D', 'dir'), ('D', 'ldir'), ('D', 'llonger'), ('D', 'dangling'),
           ('D', 'loop'), ('D', 'no', 'parent'), ('D', 'longer', 'x'), ('D', 'dir', 'file'), ('D', 'dir2'),
           ('S', 'file'), ('S', 'lfile'), ('S',), ('S', 'd'), ('S', 'lnew'), ('S', 'd', 'f'))
ZT = (('D', 'new'), ('D', 'longer'), ('D', 'shorter'), ('D', 'dir'), ('D', 'dir', 'file'), ('D', 'dir2'), ('D', 'longer', 'x'), ('D',))


def cases(ctx):
    for pair in mixed.PAIRS:
        for size in SIZES[ctx.tier]:
            for mode in ((0, 0o101, 0o111) if 'z' not in pair else (0,)):
                if mode and size not in (1, 8193):
                    continue
                yield (pair, size, mode)
        for size in LARGE:
            yield (pair, size, 0)


def nodes_for(pair, size, mode):
    k1, k2 = mixed.PAIRS[pair]
    c = blob(size, 3)
    s = [(('S', 'file'), ('f', c, mode)), (('S', 'other'), ('f', b'other', 0o100)), (('S', 'd'), ('d',)), (('S', 'd', 'f'), ('f', c + b'!', mode))]
    if not k1.startswith('zip'):
        s += [(('S', 'lfile'), ('l', ('S', 'file'))), (('S', 'llfile'), ('l', ('S', 'lfile'))), (('S', 'dangling'), ('l', ('S', 'gone'))),
              (('S', 'ld'), ('l', ('S', 'd'))), (('S', 'lnew'), ('l', ('S', 'fresh')))]
    t = [(('D', 'longer'), ('f', blob(size + 3000, 5), 0o010)), (('D', 'shorter'), ('f', blob(size // 2, 6), 0)), (('D', 'dir'), ('d',)),
         (('D', 'dir', 'keep'), ('f', b'keep', 0)), (('D', 'dir2'), ('d',)), (('D', 'dir2', 'file'), ('f', b'in the way' * 2, 0)),
         (('D', 'dir2', 'f'), ('d',)), (('D', 'dir2', 'f', 'kept'), ('f', b'kept', 0))]
    if not k2.startswith('zip'):
        t += [(('D', 'ldir'), ('l', ('D', 'dir'))), (('D', 'llonger'), ('l', ('D', 'longer'))), (('D', 'dangling'), ('l', ('D', 'fresh'))),
              (('D', 'loop'), ('l', ('D', 'loop')))]
    else:
        t = [(p, nd) for p, nd in t if nd[0] == 'd' or True]
    for x in (s, t):
        for i, (p, nd) in enumerate(x):
            if nd[0] == 'f' and (k1 if p[0] == 'S' else k2).startswith('zip'):
                x[i] = (p, (nd[0], nd[1], 0))
    return s + t


def run(ctx, case):
    pair, size, mode = case
    k1, k2 = mixed.PAIRS[pair]
    nodes = nodes_for(pair, size, mode)
    zs, zd = k1.startswith('zip'), k2.startswith('zip')
    zipside = ('S' if zs else '') + ('D' if zd else '')
    hist = shapes.ops_for([x for x in nodes if not (x[1][0] == 'd' and x[0][0] in zipside)])
    st = dict(nodes)
    st[('S',)] = ('d',)
    st[('D',)] = ('d',)
    d = None
    large = size in LARGE
    for source in SOURCES if not large else SOURCES[0::3][:2]:
        if zs and source not in st and source != ('S', 'nope'):
            continue
        for target in TARGETS if not large else TARGETS[:4]:
            if zd and target[0] == 'D' and target not in ZT:
                continue
            if zs and target[0] == 'S' and target not in (('S', 'file'), ('S',), ('S', 'd'), ('S', 'd', 'f')):
                continue
            for fl in (True, False):
                within = k1 == k2 or target[0] == 'S'
                keep = within and not zs
                s2 = dict(st)
                try:
                    if not within and not fl and rm.islink(st, source) and rm.isfile(st, source):
                        want = ('no', 'LINK')
                    else:
                        rm.copy_file(s2, source, target, fl, keepmode=keep)
                        want = ('ok', None)
                except rm.Err as e:
                    want = ('no', e.kind)
                op = ('copy', source, target, fl)
                if d is None:
                    d = mixed.Mixed(ctx, pair)
                    d.build(hist)
                    ctx.count('traces')
                    seen = d.observe()
                    mixed.same(d, seen, st, 'the set-up')
                    if keep:
                        old = d.uri(('S', 'file'))
                        if k1 == 'local':
                            os.utime(old.path, (1000000000, 1000000000))
                            os.utime(d.uri(('S', 'd', 'f')).path, (1000000500, 1000000500))
                        else:
                            old._manipulate(mtime=1000000000)
                            d.uri(('S', 'd', 'f'))._manipulate(mtime=1000000500)
                times = {p: str(d.uri(p).mtime()) for p, nd in st.items() if nd[0] == 'f' and p[0] not in zipside}
                ctx.count('transitions')
                ctx.see('outcomes', (pair, want))
                ctx.see('states', (case, source, target, fl))
                try:
                    d.uri(source).copy(d.uri(target), **({} if fl else {'followlinks': False}))
                    got = ('ok', None)
                except fd.refusals() as e:
                    got = ('no', e)
                fd.same_outcome(d, op, got, want)
                after = d.observe()
                mixed.same(d, after, s2 if want[0] == 'ok' else st, fd.show(op))
                if want[0] == 'ok':
                    changed = [p for p in s2 if st.get(p) != s2.get(p)]
                    written = written_file(st, source, target) if not (rm.islink(st, source) and not fl) else None
                    for p, t in times.items():
                        if p == written or s2.get(p) != st.get(p):
                            continue
                        now = str(d.uri(p).mtime())
                        require(now == t, '%s: %s changed the mtime of %s' % (d.name, fd.show(op), fd.sp(p)))
                    if written is not None and keep:
                        want_t = times[rm.lookup(st, source)]
                        require(str(d.uri(written).mtime()) == want_t,
                                '%s: %s gives mtime %s, expected %s' % (d.name, fd.show(op), d.uri(written).mtime(), want_t))
                    d = None
                else:
                    for p, t in times.items():
                        require(str(d.uri(p).mtime()) == t, '%s: the refused %s changed the mtime of %s' % (d.name, fd.show(op), fd.sp(p)))
    ctx.sample({'pair': pair, 'size': size, 'mode': mode})


def written_file(st, source, target):
    t = target + (source[-1],) if rm.isdir(st, target) else target
    try:
        return rm.resolve(st, t)[1]
    except rm.Err:
        return None
