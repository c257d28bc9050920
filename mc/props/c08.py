"""C08: a recursive copy is a faithful copy.

All forests of bounded size x followlinks x ignore sets x targets x backend
pairs, against the reference model.  A copy that must fail is checked to leave
the source and everything beside the target alone.
"""
import os
import shutil
from itertools import product

from .. import fsdrive as fd
from .. import mixed
from .. import refmodel as rm
from .. import shapes
from ..common import load, require

BOUNDS = {
    'quick': 'all forests of up to 3 nodes on memory, up to 2 on the other pairs of memory, second memory and local; from zip all forests of files; 11 targets, followlinks on and off, 4 ignore sets (given in 8 ways, among them iterators), source named directly, with a slash, and through a link; relative links of others (11 texts in 2 places, pairs of them) as the tools of the standard library copy them',
    'thorough': 'forests of up to 4 nodes on memory, 3 on all pairs',
}
ASSUMPTIONS = ['followlinks=True is not used on a tree with a cycle of links',
               'after a copy that fails half-way the state of the target itself is not compared (see C11)',
               'a zip archive is a source only: it has no mkdir']
TOP, OUT = ('S', 'top'), ('S', 'o')
LEAVES = ('f', 'x', 'lf', 'ld', 'ln', 'ls', 'lu')
CASES = []
KINDS = (list, iter, set, lambda x: (y for y in x), tuple, reversed, frozenset, lambda x: dict.fromkeys(x).keys())
TARGETS = (('D', 'new'), ('D',), ('D', 'p', 'q'), ('D', 'merge'), ('D', 'file'), ('D', 'ld'), ('D', 'dangling'),
           ('S', 'top'), ('S', 'top', 'new'), ('S', 'o'), ('S', 'top2'))


def prepare(tier):
    CASES[:] = []
    big, small = (4, 3) if tier == 'thorough' else (3, 2)
    for pair, n, leaves in (('mm', big, LEAVES), ('ll', small, LEAVES), ('ml', small, LEAVES), ('lm', small, LEAVES),
                            ('m2', small, LEAVES), ('zm', big, ('f',)), ('zl', big, ('f', 'e'))):
        if pair == 'mm':
            # the largest trees get fewer kinds of leaves
            fs = list(shapes.up_to(n - 1, leaves)) + list(shapes.forests(n, ('f', 'ld', 'ls') if tier == 'quick' else ('f', 'ld', 'ln')))
        else:
            fs = list(shapes.up_to(n, leaves))
        for i, f in enumerate(fs):
            CASES.append((pair, f, i))


def cases(ctx):
    for text in RELATIVE:
        yield ('relative', text)
    for i in range(len(CASES)):
        yield (i,)


def extra(same):
    "what the target side holds before"
    out = [(('D', 'merge'), ('d',)), (('D', 'merge', 'top'), ('d',)), (('D', 'merge', 'top', 'a'), ('f', b'old longer content', 0)),
           (('D', 'merge', 'top', 'keep'), ('f', b'kept', 0o111)), (('D', 'merge', 'top', 'b'), ('d',)),
           (('D', 'merge', 'top', 'b', 'kk'), ('f', b'kept too', 0)),
           (('D', 'file'), ('f', b'a file', 0)), (('D', 'dir'), ('d',)), (('D', 'ld'), ('l', ('D', 'dir'))),
           (('D', 'dangling'), ('l', ('D', 'nothing')))]
    return out


RELATIVE = ('d', 'f', './d/', 'd/g', '../top/d', '../o', '../o/f', 'gone', '.', '../f', '../d')


def snapshot(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            name = os.path.relpath(p, root)
            if os.path.islink(p):
                out[name] = ('link', os.path.normpath(os.readlink(p)))
            elif os.path.isdir(p):
                out[name] = None
            else:
                with open(p, 'rb') as f:
                    out[name] = f.read()
    return out


def relative(ctx, one):
    "a link that others made relative stays the same link, or is the content it leads to"
    ns = load()
    for other, links, target in product(RELATIVE, (True, False), ('new', 'p/q', 'memory')):
        root = ctx.local_root()
        for d in ('', '/top', '/top/d', '/o'):
            if d:
                os.mkdir(root + d)
        for n in ('top/f', 'top/d/g', 'o/f', 'f'):
            with open('%s/%s' % (root, n), 'w') as f:
                f.write(n)
        os.symlink(one, root + '/top/l')
        os.symlink(other, root + '/top/d/m')
        if not links:
            loops = any(os.path.isdir(x) and os.path.realpath(x) in (root, root + '/top', root + '/top/d') for x in (root + '/top/l', root + '/top/d/m'))
            if loops or not all(os.path.exists(root + x) for x in ('/top/l', '/top/d/m')):
                continue
        elif target == 'memory':
            continue
        before = snapshot(root)
        os.mkdir(root + '/ref')
        shutil.copytree(root + '/top', root + '/ref/x', symlinks=links)
        want = snapshot(root + '/ref/x')
        shutil.rmtree(root + '/ref')
        ns.REG.cleanup(force=True)
        goal = ns.URI('memory:///top' if target == 'memory' else '%s/%s' % (root, target))
        what = dict(links=[one, other], followlinks=not links, target=target)
        ctx.count('transitions')
        try:
            ns.URI(root + '/top').copy(goal, recursive=True, followlinks=not links)
        except Exception as e:
            require(False, 'copying a tree with relative links failed: %r' % e, **what)
        if target == 'memory':
            got = {}
            for base, dirs, files in goal.walk():
                for n in dirs + files:
                    u = base / n
                    got[u.path[5:]] = None if u.isdir() else u.open('rb').read()
        else:
            got = snapshot(goal.path)
            shutil.rmtree(root + '/' + target.split('/')[0])
            require(snapshot(root) == before, 'copying a tree with relative links changed something else', **what)
        require(got == want, 'copying a tree with relative links gave something else', got=got, expected=want, **what)
        ctx.see('states', (one, other, links, target))
    ctx.count('traces')


def run(ctx, case):
    if case[0] == 'relative':
        return relative(ctx, case[1])
    pair, forest, idx = CASES[case[0]]
    zipped = pair[0] == 'z'
    if zipped and not forest:
        return
    names = shapes.ODD if idx % 2 else shapes.NAMES
    src = shapes.place(forest, TOP, OUT, names)
    if zipped:
        src = [x for x in src if x[1][0] == 'f' or any(y[0][:-1] == x[0] for y in src)]
        if not all(any(y[1][0] == 'f' and y[0][:len(x[0])] == x[0] for y in src) for x in src):
            return
        nodes = src + extra(False)
    else:
        nodes = shapes.outside(OUT) + src + extra(False) + [(('S', 'via'), ('l', TOP))]
    d = None
    hist = shapes.ops_for([x for x in nodes if not (zipped and x[0][0] == 'S' and x[1][0] == 'd')])
    st = dict(nodes)
    st[('S',)] = ('d',)
    st[('D',)] = ('d',)
    ctx.see('states', (pair, rm.canon(st)))
    dirs = sorted(p[-1] for p, nd in src if nd[0] == 'd' and p != TOP) + sorted(p[-1] for p, nd in src if nd[0] == 'l')
    combos = []
    for t in TARGETS:
        for fl in (True, False):
            combos.append((TOP, '', t, fl, None))
    combos += [(TOP, '/', ('D', 'new'), True, None), (TOP, '/', ('D',), True, None)]
    if not zipped:
        combos += [(('S', 'via'), '', t, fl, None) for t in (('D', 'new'), ('D',), ('D', 'file'), ('S', 'top', 'x')) for fl in (True, False)]
        combos += [(('S', 'nope'), '', ('D', 'new'), True, None), (('S', 'o', 'f'), '', ('D', 'new'), True, None)]
    for n in dirs[:2]:
        combos.append((TOP, '', ('D', 'new'), True, (n,)))
        combos.append((TOP, '', ('D', 'new'), False, (n, 'zzz')))
    if dirs:
        combos.append((TOP, '', ('D', 'merge'), False, tuple(dirs)))
    if any(nd[0] == 'f' for _, nd in src):
        # the name of a file is no reason to leave it out
        combos.append((TOP, '', ('D', 'new'), False, tuple(p[-1] for p, nd in src if nd[0] == 'f' and p[-1] not in dirs)))
    same_backend = mixed.PAIRS[pair][0] == mixed.PAIRS[pair][1]
    for nth, (source, slash, target, fl, ignore) in enumerate(combos):
        if zipped and target[0] == 'S':
            continue
        within = same_backend or target[0] == 'S'
        s2 = dict(st)
        try:
            if not within and not fl and (shapes.has(forest, ('lf', 'ld', 'ln', 'ls', 'lu')) or source[-1] == 'via'):
                # links can't be preserved across backends: refused, as long as the copy gets to one
                want = ('no', 'LINK')
                if rm.isdir(s2, source) and source[-1] != 'via' and not reaches_link(s2, source, ignore or ()):
                    rm.copy_tree(s2, source, target, fl, ignore or (), keepmode=False)
                    want = ('ok', None)
            else:
                try:
                    rm.copy_tree(s2, source, target, fl, ignore or (), keepmode=within)
                    want = ('ok', None)
                except rm.Err as e:
                    want = ('no', e.kind)
        except rm.Cyclic:
            ctx.count('outside')
            continue
        except rm.Err as e:
            want = ('no', e.kind)
        if d is None:
            d = mixed.Mixed(ctx, pair)
            d.build(hist)
            ctx.count('traces')
        op = ('copytree', source, target, fl, ignore)
        su, tu = d.uri(source), d.uri(target)
        if slash:
            su = su / ''
        allowed = fd.refusals()
        ctx.count('transitions')
        ctx.see('outcomes', want)
        try:
            # anything that can be iterated over, even only once
            arg = None if ignore is None else KINDS[(nth + idx) % len(KINDS)](ignore)
            given = dict(recursive=True, followlinks=fl, ignore=arg)
            if (nth + idx) % 2:
                # what is not given is the default
                for name, default in (('followlinks', True), ('ignore', None)):
                    if given[name] is default:
                        del given[name]
            su.copy(tu, **given)
            got = ('ok', None)
        except allowed as e:
            got = ('no', e)
        except NotImplementedError as e:
            got = ('no', e)
            require(type(e).__name__.startswith('Operation'), 'raised %r' % e)
        fd.same_outcome(d, op, got, want)
        after = d.observe()
        if want[0] == 'ok':
            mixed.same(d, after, s2, fd.show(op) + (' with a trailing slash' if slash else ''))
            d = None
        elif want[1] in ('MISSING', 'REFUSED', 'INSIDE'):
            mixed.same(d, after, st, 'the refused ' + fd.show(op))
        else:
            keep = {p: nd for p, nd in st.items() if p[0] == 'S' and (target[0] != 'S' or p[:2] != target[:2])}
            keep.update({p: nd for p, nd in st.items() if p[0] == 'D' and (target == ('D',) and p[1:2] != ('top',) or
                                                                       p[:len(target)] != target and target != ('D',)
                                                                       and not (target == ('D', 'ld') and p[:2] == ('D', 'dir')))})
            part = {p: nd for p, nd in after.items() if p in keep}
            mixed.same(d, part, keep, 'the failed ' + fd.show(op))
            d = None
    ctx.sample({'backends': d.name if d else pair, 'tree': fd.show_state(dict(src))})


def reaches_link(st, top, ignore):
    for root, dirs, files in rm.walk(st, top, True, False):
        dirs[:] = [x for x in dirs if x not in ignore]
        for n in dirs + files:
            if rm.islink(st, root + (n,)):
                return True
    return False
