"""C10: move works like mv and never loses data.

All forests of bounded size, moved as a whole, by parts and by links, to all
kinds of targets, within and across backends, against the reference model.
"""
import contextlib
import errno
import os

from .. import fsdrive as fd
from .. import mixed
from .. import refmodel as rm
from .. import shapes
from ..common import load, require

BOUNDS = {
    'quick': 'all forests of up to 2 nodes (8 kinds), on memory, local, local over two devices (os.rename refuses, as between devices) and across; up to 3 nodes of fewer kinds on memory; every entry moved to 15 targets; 8 relative links of others moved to 7 targets',
    'thorough': 'all forests of up to 3 nodes on all pairs',
}
ASSUMPTIONS = ['across backends: no cycles of directory links in what is moved', 'directories are not moved over a mount point (the local tree is one file system)']
TOP, OUT = ('S', 'top'), ('S', 'o')
LEAVES = ('f', 'x', 'lf', 'ld', 'ln', 'ls', 'lu', 'lo')
TARGETS = (('D', 'new'), ('D',), ('D', 'p', 'q'), ('D', 'dir'), ('D', 'file'), ('D', 'ldir'), ('D', 'dangling'), ('D', 'lfile'), ('D', 'loop'),
           ('D', 'full'), ('D', 'file', 'x'),
           ('S', 'top'), ('S', 'top', 'new'), ('S', 'o'), ('S', 'o', 'f'), ('S', 'via', 'n'), ('S', 'renamed'), ('S',))
CASES = []


def prepare(tier):
    CASES[:] = []
    for pair in ('mm', 'll', 'xx', 'ml', 'lm', 'm2'):
        leaves = LEAVES if pair in ('mm', 'll', 'xx') else ('f', 'x', 'e', 'lf', 'ld', 'ls', 'ln', 'lo')
        if tier == 'quick' and pair != 'mm':
            leaves = ('f', 'x', 'ld', 'lu', 'lo') if pair in ('ll', 'xx') else ('f', 'x', 'ld', 'ls', 'ln')
        fs = list(shapes.up_to(3 if tier == 'thorough' else 2, leaves))
        if pair == 'mm' and tier == 'quick':
            fs += list(shapes.forests(3, ('f', 'ld')))
        for i, f in enumerate(fs):
            CASES.append((pair, f, i))


def cases(ctx):
    for text in RELATIVE:
        yield ('relative', text)
    for i in range(len(CASES)):
        yield (i,)


def setup_nodes(forest, idx):
    names = shapes.ODD if idx % 2 else shapes.NAMES
    src = shapes.place(forest, TOP, OUT, names)
    extra = [(('D', 'dir'), ('d',)), (('D', 'dir', 'keep'), ('f', b'kept', 0)), (('D', 'file'), ('f', b'replaced', 0)),
             (('D', 'full'), ('d',)), (('D', 'full', 'top'), ('d',)), (('D', 'full', 'top', 'kk'), ('f', b'kept as well', 0)),
             (('D', 'full', 'a'), ('d',)), (('D', 'full', 'b'), ('f', b'old b', 0)),
             (('D', 'ldir'), ('l', ('D', 'dir'))), (('D', 'dangling'), ('l', ('D', 'nothing'))), (('D', 'lfile'), ('l', ('D', 'file'))),
             (('D', 'loop'), ('l', ('D', 'loop'))), (('S', 'via'), ('l', TOP))]
    return src, shapes.outside(OUT) + src + extra


def cross_move(st, source, target):
    "between backends links are moved as the content they point to"
    if not rm.exists(st, source) and not rm.islink(st, source):
        raise rm.Err('MISSING')
    if not rm.exists(st, source):
        raise rm.Cyclic('dangling link across backends')
    s = rm.lookup(st, source, False)
    real_dir = st[s][0] == 'd'
    dst = target + (source[-1],) if rm.isdir(st, target) else target
    if rm.islink(st, dst) or rm.exists(st, dst):
        if real_dir or not (rm.islink(st, dst) or rm.isfile(st, dst)):
            raise rm.Err('EXISTS')
    if not shapes.acyclic(st, source) or rm.isdir(st, source) and any(
            not rm.exists(st, r + (n,)) for r, ds, fs in rm.walk(st, source) for n in ds + fs):
        raise rm.Cyclic('dangling or looping links across backends')
    if rm.islink(st, dst):
        for n in range(len(dst)):
            if rm.islink(st, dst[:n]) and rm.same_entry(st, dst[:n], dst):
                raise rm.Err('THROUGH')
    s2 = dict(st)
    if rm.islink(s2, dst):
        if not rm.isdir(s2, dst[:-1]):
            raise rm.Cyclic('target through a link')
        del s2[rm.lookup(s2, dst, False)]
    if rm.isdir(s2, source):
        rm.copy_tree(s2, source, dst, True, (), keepmode=False)
    else:
        rm.copy_file(s2, source, dst, True, keepmode=False)
    rm.remove(s2, source, True)
    st.clear()
    st.update(s2)


def broken_below(st, source):
    return any(not rm.exists(st, r + (n,)) for r, ds, fs in rm.walk(st, source) for n in ds + fs)


def nothing_to_move(ctx, pair, hist, st, source, target):
    """a link to nothing can't be moved as the content it points to: the move is refused, and nothing
    of the source is gone"""
    d = mixed.Mixed(ctx, pair)
    d.build(hist)
    ctx.count('traces')
    ctx.count('transitions')
    what = fd.show(('move', source, target))
    try:
        d.uri(source).move(d.uri(target))
    except fd.refusals():
        pass
    else:
        require(False, '%s: %s succeeded, but what a link to nothing points to cannot be moved' % (d.name, what), tree=fd.show_state(st))
    after = d.observe()
    lost = {fd.sp(p): repr(nd)[:200] for p, nd in st.items() if p[0] == 'S' and after.get(p) != nd}
    require(not lost, '%s: %s was refused and the source is damaged' % (d.name, what), lost=lost, tree=fd.show_state(st))
    hurt = {fd.sp(p): repr(nd)[:200] for p, nd in st.items() if p[0] == 'D' and p[:len(target)] != target and target[:len(p)] != p and after.get(p) != nd
            and not (rm.isdir(st, target) and p[:2] == rm.lookup(st, target)[:2])}
    require(not hurt, '%s: %s was refused and damaged something else' % (d.name, what), hurt=hurt, tree=fd.show_state(st))


RELATIVE = ('d', 'f', './d/', 'd/g', '../top/d', 'gone', 'l', '..')


def snapshot(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            name = os.path.relpath(p, root)
            if os.path.islink(p):
                out[name] = os.readlink(p)
            elif os.path.isdir(p):
                out[name] = None
            else:
                with open(p, 'rb') as f:
                    out[name] = f.read()
    return out


def relative(ctx, text):
    "what mv does to a link is a renaming: it stays the link it is"
    ns = load()
    for target, ends in (('m', 'm'), ('sub', 'sub/l'), ('sub/n', 'sub/n'), ('file', 'file'), ('lk', 'lk'), ('ld', 'sub/l'), ('sub2/deep', 'sub2/deep/l')):
        top = ctx.local_root() + '/top'
        for d in ('', '/d', '/sub', '/sub2', '/sub2/deep'):
            os.mkdir(top + d)
        for n in ('f', 'd/g', 'file'):
            with open('%s/%s' % (top, n), 'w') as f:
                f.write(n)
        os.symlink('nothing', top + '/lk')
        os.symlink('sub', top + '/ld')
        os.symlink(text, top + '/l')
        want = snapshot(top)
        want[ends] = want.pop('l')
        ctx.count('transitions')
        what = dict(link=text, target=target)
        try:
            ns.URI(top + '/l').move(ns.URI('%s/%s' % (top, target)))
        except Exception as e:
            require(False, 'moving a relative link failed: %r' % e, **what)
        got = snapshot(top)
        require(got == want, 'moving a relative link gave something else', got=got, expected=want, **what)
    ctx.count('traces')


@contextlib.contextmanager
def devices(d):
    "the two local trees are on different devices: nothing can be renamed from one to the other"
    if d.pair != 'xx':
        yield
        return
    tops = [os.path.realpath(r.path) for r in d.roots.values()]
    was = {n: getattr(os, n) for n in ('rename', 'replace', 'link')}

    def device(path):
        real = os.path.join(os.path.realpath(os.path.dirname(os.fspath(path))), '')
        return [t for t in tops if real.startswith(t + '/')]

    def make(f):
        def call(src, dst, *args, **kw):
            if device(src) != device(dst):
                raise OSError(errno.EXDEV, 'Invalid cross-device link', src, None, dst)
            return f(src, dst, *args, **kw)
        return call
    try:
        for n in was:
            setattr(os, n, make(was[n]))
        yield
    finally:
        for n in was:
            setattr(os, n, was[n])


def stamp(d, st, source):
    "gives each file of the source a time of its own; which ones"
    if d.pair not in ('ll', 'xx') or not (rm.exists(st, source) or rm.islink(st, source)):
        return {}
    out = {}
    real = rm.lookup(st, source, False)
    for n, (p, nd) in enumerate(sorted(st.items())):
        if nd[0] == 'f' and p[:len(real)] == real:
            out[p[len(real):]] = 1000000000 + 1000 * n
            os.utime(d.uri(p).path, (5, 1000000000 + 1000 * n))
    return out


def run(ctx, case):
    if case[0] == 'relative':
        return relative(ctx, case[1])
    pair, forest, idx = CASES[case[0]]
    src, nodes = setup_nodes(forest, idx)
    hist = shapes.ops_for(nodes)
    st = dict(nodes)
    st[('S',)] = ('d',)
    st[('D',)] = ('d',)
    ctx.see('states', (pair, rm.canon(st)))
    d = None
    sources = [p for p, _ in src] + [('S', 'via'), ('S', 'via', 'a'), ('S', 'o', 'd'), ('S', 'nope')]
    for source in sources:
        for target in TARGETS:
            within = mixed.PAIRS[pair][0] == mixed.PAIRS[pair][1] or target[0] == source[0]
            s2 = dict(st)
            try:
                if within:
                    rm.move(s2, source, target)
                else:
                    cross_move(s2, source, target)
                want = ('ok', None)
            except rm.Cyclic:
                if shapes.acyclic(st, source) and not rm.isdir(st, source) or shapes.acyclic(st, source) and broken_below(st, source):
                    nothing_to_move(ctx, pair, hist, st, source, target)
                    d = None
                ctx.count('outside')
                continue
            except rm.Err as e:
                want = ('no', e.kind)
            if d is None:
                d = mixed.Mixed(ctx, pair)
                d.build(hist)
                ctx.count('traces')
            op = ('move', source, target)
            ctx.count('transitions')
            ctx.see('outcomes', (pair, want))
            times = stamp(d, st, source)
            try:
                with devices(d):
                    d.uri(source).move(d.uri(target))
                got = ('ok', None)
            except fd.refusals() as e:
                got = ('no', e)
            fd.same_outcome(d, op, got, want)
            mixed.same(d, d.observe(), s2 if want[0] == 'ok' else st, fd.show(op), tree=fd.show_state(st))
            if want[0] == 'ok':
                dst = target + (source[-1],) if rm.isdir(st, target) else target
                for rest, t in times.items():
                    now = os.stat(d.uri(dst + rest).path).st_mtime
                    require(now == t, '%s: the mtime of %s is not carried along by %s' % (d.name, fd.sp(source + rest), fd.show(op)), got=now, expected=t)
                d = None
    ctx.sample({'pair': pair, 'tree': fd.show_state(dict(src))})
