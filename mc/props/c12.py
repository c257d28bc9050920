"""C12: walk visits every entry exactly once."""
from itertools import combinations

from .. import fsdrive as fd
from .. import refmodel as rm
from .. import shapes
from ..common import load, require, Violated

BOUNDS = {
    'quick': 'all forests of up to 3 nodes (8 kinds) on memory, 2 on local and a plug-in backend, 3 of files and directories on zip; both orders, both link modes, all prunings of up to 2 names, stopping early',
    'thorough': 'forests of up to 4 nodes on memory, 3 on local and the plug-in',
}
ASSUMPTIONS = ['followlinks=True only on trees without cycles of links', 'the tree is not changed while it is walked']
LEAVES = ('f', 'lf', 'ld', 'ln', 'ls', 'lu', 'lo')
TOP, OUT = ('t',), ('o',)
CASES = []


def prepare(tier):
    CASES[:] = []
    n = 4 if tier == 'thorough' else 3
    for b, m, leaves in (('memory', n, LEAVES if tier == 'quick' else ('f', 'ld', 'ln', 'ls', 'lu')), ('local', n - 1, LEAVES), ('mini', n - 1, LEAVES),
                         ('zip', n, ('f',)), ('bare', n, ('f',))):
        for i, f in enumerate(shapes.up_to(m, leaves)):
            CASES.append((b, f, i))


def cases(ctx):
    for i in range(len(CASES)):
        yield (i,)


def reference(st, top, topdown, followlinks, prune=()):
    "independent of refmodel.walk: a recursion over the listing"
    names = rm.listdir(st, top)
    dirs = sorted(n for n in names if rm.isdir(st, top + (n,)))
    files = sorted(n for n in names if not rm.isdir(st, top + (n,)))
    shown = list(dirs)
    out = []
    below = []
    for n in [x for x in dirs if x not in prune]:
        if followlinks or not rm.islink(st, top + (n,)):
            below += reference(st, top + (n,), topdown, followlinks, prune)
    me = [(top, shown, files)]
    return me + below if topdown else below + me


def run(ctx, case):
    ns = load()
    backend, forest, idx = CASES[case[0]]
    names = shapes.ODD if idx % 2 else shapes.NAMES
    ns.REG.cleanup(force=True)
    nodes = shapes.outside(OUT) + shapes.place(forest, TOP, OUT, names) + [(('via',), ('l', TOP))]
    if backend in ('zip', 'bare'):
        nodes = [x for x in nodes if x[1][0] != 'l']
    if backend == 'zip':
        if not all(any(y[1][0] == 'f' and y[0][:len(x[0])] == x[0] for y in nodes) for x in nodes):
            return
        root = ns.URI('zip://((memory:///x.zip))/')
    elif backend == 'local':
        root = ns.URI(ctx.local_root())
    else:
        root = ns.URI('%s:///' % backend)
    d = fd.Drive(root, backend)
    st = dict(nodes)
    fd.replay(d, [o for o in shapes.ops_for(nodes) if not (backend == 'zip' and o[0] in ('mkdir', 'setexec'))])
    ctx.see('states', (backend, rm.canon(st)))
    ctx.count('traces')
    tops = [TOP, ()]
    if backend not in ('zip', 'bare'):
        tops.append(('via',))
    for top in tops:
        for fl in (True, False):
            try:
                for _ in rm.walk(st, top, True, fl):
                    pass
            except rm.Cyclic:
                ctx.count('outside')
                continue
            for slash in ((False, True) if top == TOP else (False,)):
                u = d.uri(top)
                if slash:
                    u = u / ''
                plain = u.path.rstrip('/')
                for td in (True, False):
                    want = reference(st, top, td, fl)
                    got = [(back(r, plain, top), ds, fs) for r, ds, fs in u.walk(topdown=td, followlinks=fl)]
                    ctx.count('transitions')
                    require(got == want, '%s: walk(%s, topdown=%s, followlinks=%s) is wrong' % (backend, fd.sp(top), td, fl),
                            got=got, expected=want, tree=fd.show_state(st))
                if slash:
                    continue
                if fl:
                    got = [(back(r, plain, top), ds, fs) for r, ds, fs in u.walk()]
                    require(got == reference(st, top, True, True), '%s: walk() is not top-down following links' % backend)
                alldirs = sorted(set(n for _, ds, _ in reference(st, top, True, fl) for n in ds))
                for k in (1, 2):
                    for prune in combinations(alldirs, k):
                        want = [(r, [x for x in ds if x not in prune], fs) for r, ds, fs in reference(st, top, True, fl, prune)]
                        got = []
                        for r, ds, fs in u.walk(followlinks=fl):
                            for n in prune:
                                if n in ds:
                                    ds.remove(n)
                            got.append((back(r, plain, top), list(ds), fs))
                        ctx.count('transitions')
                        require(got == want, '%s: walk(%s) with %r removed from the directories is wrong' % (backend, fd.sp(top), prune),
                                got=got, expected=want, tree=fd.show_state(st))
                # the URIs that are yielded are usable
                for r, ds, fs in u.walk(followlinks=fl):
                    require(r.scheme == u.scheme and r.get_connection() is u.get_connection(), '%s: walk leaves the connection' % backend)
                    require(r.isdir(), '%s: walk yields %s, which is no directory' % (backend, r))
                    for n in ds:
                        require((r / n).isdir(), '%s: walk calls %s a directory' % (backend, r / n))
                    break
    for p, nd in list(st.items()) + [(('nope',), None), (('t', 'nope'), None)]:
        if nd is not None and rm.isdir(st, p):
            continue
        try:
            list(d.uri(p).walk())
        except fd.refusals():
            continue
        raise Violated('%s: walk of %s, which is no directory, is not refused' % (backend, fd.sp(p)))
    ctx.sample({'backend': backend, 'tree': fd.show_state(st)})


def back(r, plain, top):
    p = r.path
    require((p.rstrip('/') + '/').startswith(plain + '/'), 'walk yields %s, outside %s' % (p, plain))
    return top + tuple(x for x in p[len(plain):].split('/') if x)
