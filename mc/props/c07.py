"""C07: removal removes exactly what it names.

Every forest of bounded size below a directory, with links to an outside file
and directory, to nothing, to a neighbour, to the top; every path of it is
removed with and without recursive, on memory and local; the whole tree must be
the one without exactly that entry (and what is below it).
"""
from .. import fsdrive as fd
from .. import refmodel as rm
from .. import shapes
from ..common import require

BOUNDS = {
    'quick': 'all forests of up to 3 nodes (kinds: file, executable, directory, link to file / directory / itself / neighbour / top; dangling links in the smaller ones) on memory and local, every entry removed both ways, through the directory and through a link to it',
    'thorough': 'forests of up to 4 nodes',
}
ASSUMPTIONS = ['the root is not removed']
LEAVES = ('f', 'lf', 'ld', 'lo', 'ls', 'lu')
SHAPES = []
TOP, OUT = ('t',), ('o',)


def prepare(tier):
    n = 4 if tier == 'thorough' else 3
    SHAPES[:] = list(shapes.up_to(n - 1, LEAVES + ('x', 'ln'))) + list(shapes.forests(n, LEAVES))


def cases(ctx):
    yield ('pipe',)
    for i in range(len(SHAPES)):
        yield (i,)


PIPES = [('t', 'p'), ('t', 'd', 'p'), ('t', 'd', 's', 'p')]


def run_pipe(ctx, where, how):
    "a named pipe is an entry like a file"
    import os
    d = fd.local_drive(ctx)
    top = d.root.path
    os.makedirs(os.path.join(top, 't', 'd', 's'))
    os.makedirs(os.path.join(top, 'o'))
    for p in PIPES:
        os.mkfifo(os.path.join(top, *p))
    os.mkfifo(os.path.join(top, 'o', 'p'))
    os.symlink(os.path.join(top, 'o', 'p'), os.path.join(top, 't', 'l'))

    def listing():
        return sorted(os.path.relpath(os.path.join(r, n), top) for r, ds, fs in os.walk(top) for n in ds + fs)
    before = listing()
    d.uri(where).remove(recursive=how)
    gone = '/'.join(where)
    want = [x for x in before if x != gone and not x.startswith(gone + '/')]
    require(listing() == want, 'local: removal of %s, with named pipes about' % gone, got=listing(), expected=want)
    ctx.count('transitions')


def run(ctx, case):
    if case[0] == 'pipe':
        for where in PIPES + [('t', 'l')]:
            run_pipe(ctx, where, False)
        for where in PIPES + [('t', 'l'), ('t', 'd', 's'), ('t', 'd'), ('t',)]:
            run_pipe(ctx, where, True)
        return
    forest = SHAPES[case[0]]
    names = shapes.ODD if case[0] % 2 else shapes.NAMES
    nodes = shapes.outside(OUT) + shapes.place(forest, TOP, OUT, names) + [(('via',), ('l', TOP))]
    st = dict(nodes)
    hist = shapes.ops_for(nodes)
    ctx.see('states', rm.canon(st))
    mine = [p for p, _ in nodes if p[0] == 't']
    targets = mine + [('via',) + p[1:] for p in mine if len(p) > 1] + [('via',), ('nope',), ('t', 'nope'), ('o', 'f', 'x')]
    for backend in ('memory', 'local'):
        d = None
        for p in targets:
            for op in (('remove', p), ('rmr', p)):
                if backend == 'local' and p[0] == 'via' and case[0] % 4:
                    continue
                if d is None:
                    d = fd.memory_drive() if backend == 'memory' else fd.local_drive(ctx)
                    fd.replay(d, hist)
                    ctx.count('traces')
                s2 = dict(st)
                want = fd.model_apply(s2, op)
                got = d.apply(op)
                ctx.count('transitions')
                ctx.see('outcomes', (op[0], want))
                fd.same_outcome(d, op, got, want, hist)
                fd.same_state(d, s2, fd.show(op), hist)
                if want[0] == 'ok':
                    for q in ('exists', 'isfile', 'isdir', 'islink'):
                        require(not getattr(d.uri(p), q)(), '%s: %s is still true for %s' % (backend, q, fd.sp(p)))
                    d = None
    ctx.sample({'tree': fd.show_state(st), 'removed': [fd.sp(p) for p in targets]})
