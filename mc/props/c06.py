"""C06: symbolic links resolve as POSIX says.

All assignments of nodes to three names (and the children of a directory),
links pointing at anything including nothing and themselves; every path up to
four components is probed with every query, and every operation is tried
through every path, on memory and local, against the reference model.
"""
from itertools import product

from .. import fsdrive as fd
from .. import refmodel as rm
from ..common import require

A, B, C = ('a',), ('b',), ('c',)
BOUNDS = {
    'quick': 'every graph: a out of 15 nodes, b out of 12, c out of 4, and 84 with more links below directories, and link chains up to 20, all paths of up to 3-4 components x 7 queries on memory and local, 9 operations through 20 paths',
    'thorough': 'a, b, c each out of 14 nodes and all links below directories',
}
ASSUMPTIONS = ['link targets are absolute', 'fewer than 32 links in one resolution unless there is a loop']
GRAPHS = []
TARGETS = (A, B, C, ('a', 'f'), ('b', 'f'), ('c', 'l'), ('nope',), ('nope', 'f'), ())
SUBTARGETS = (('a', 'f'), A, B, C, ('b', 'l'), ('c', 'f'), ('nope',))


def node(p, kind):
    if kind == 'missing':
        return []
    if kind == 'file':
        return [(p, ('f', b'file ' + p[0].encode(), 0))]
    if kind == 'dir':
        return [(p, ('d',)), (p + ('f',), ('f', b'in ' + p[0].encode(), 0)), (p + ('s',), ('d',))]
    if kind[0] == 'dl':
        return [(p, ('d',)), (p + ('f',), ('f', b'in ' + p[0].encode(), 0)), (p + ('l',), ('l', kind[1]))]
    return [(p, ('l', kind[1]))]


def prepare(tier):
    links = [('l', t) for t in TARGETS]
    dl = [('dl', t) for t in SUBTARGETS]
    full = ['missing', 'file', 'dir'] + links
    GRAPHS[:] = []
    if tier == 'thorough':
        combos = product(full + dl, full + dl, full)
    else:
        combos = list(product(full + dl[:3], full, ['missing', 'dir', ('l', A), ('dl', B)]))
        combos += list(product(dl, ['file', 'dir', ('l', A), ('l', ('a', 'l'))], [('dl', A), ('dl', ('b', 'l')), ('l', B)]))
    for ka, kb, kc in combos:
        nodes = node(A, ka) + node(B, kb) + node(C, kc)
        nodes.sort(key=lambda x: (x[1][0] == 'l', len(x[0])))
        GRAPHS.append(nodes)
    # chains: many links are fine as long as they end
    for n in (2, 5, 12, 20):
        chain = [(('d',), ('d',)), (('d', 'f'), ('f', b'end', 0))]
        chain += [(('l%02d' % i,), ('l', ('l%02d' % (i + 1),) if i + 1 < n else ('d',))) for i in range(n)]
        GRAPHS.append(chain)
        chain2 = [(('d',), ('d',)), (('d', 'f'), ('f', b'end', 0))] + \
                 [(('d', 'l%02d' % i), ('l', ('d', 'l%02d' % (i + 1)) if i + 1 < n else ('d', 'f'))) for i in range(n)]
        GRAPHS.append(chain2)
        # and what they end at may not be there yet
        GRAPHS.append([(('d',), ('d',)), (('d', 'f'), ('f', b'end', 0))] +
                      [(('l%02d' % i,), ('l', ('l%02d' % (i + 1),) if i + 1 < n else ('d', 'n'))) for i in range(n)])


PATHS = ([(x,) for x in 'abc'] + [(x, y) for x in 'abc' for y in ('f', 'l', 's', 'a')] +
         [(x, 'l', y) for x in 'abc' for y in ('f', 'l', 'n')] + [(x, 's', 'n') for x in 'ab'] + [('a', 'l', 'l', 'f'), ('b', 'a', 'l', 'f')] +
         [('nope',), ('nope', 'f'), ('a', 'b'), ('b', 'c', 'f'), ('c', 'a', 'f')])
CPATHS = [('l00',), ('l00', 'f'), ('l03',), ('l03', 'f'), ('l03', 'n'), ('d', 'l00'), ('d', 'l04'), ('d', 'l00', 'x'), ('d', 'f')]
OPPATHS = [A, B, C, ('a', 'f'), ('a', 'l'), ('b', 'f'), ('a', 'n'), ('b', 'n'), ('c', 'n'), ('a', 'l', 'n'), ('a', 's', 'n'), ('b', 'l')]


def operations(paths):
    for p in paths:
        yield ('write', p, b'written')
        yield ('append', p, b'+')
        yield ('mkdir', p)
        yield ('remove', p)
        yield ('symlink', ('b',), p)
        yield ('makedirs', p + ('q',))
        yield ('setexec', p, 0o111)


def cases(ctx):
    for i in range(len(GRAPHS)):
        yield ('graph', i)


def run(ctx, case):
    from ..shapes import ops_for
    nodes = GRAPHS[case[1]]
    st = dict(nodes)
    hist = ops_for(nodes)
    chain = len(nodes) > 8 and nodes[2][0][-1].startswith('l0')
    paths = CPATHS if chain else PATHS
    oppaths = CPATHS if chain else OPPATHS
    ctx.see('states', rm.canon(st))
    for backend in ('memory', 'local'):
        def fresh():
            d = fd.memory_drive() if backend == 'memory' else fd.local_drive(ctx)
            fd.replay(d, hist)
            return d
        d = fresh()
        fd.same_state(d, st, 'the history', hist)
        ctx.count('traces')
        ctx.count('transitions', fd.probe(d, st, paths, hist))
        for p in paths:
            probe_more(d, st, p, hist)
        for op in operations(oppaths):
            if not ctx.thorough and not chain and case[1] % (6 if backend == 'local' else 2):
                continue
            s2 = dict(st)
            try:
                want = fd.model_apply(s2, op)
            except rm.Cyclic:
                continue
            if d is None:
                d = fresh()
            got = d.apply(op)
            fd.same_outcome(d, op, got, want, hist)
            ctx.count('transitions')
            ctx.see('outcomes', (op[0], want[0], want[1]))
            if want[0] == 'ok':
                fd.same_state(d, s2, fd.show(op), hist)
                d = None
        if d is not None:
            fd.same_state(d, st, 'refused operations', hist)
    ctx.sample({'graph': fd.show_state(st)})


def probe_more(d, st, p, hist):
    "queries beyond fsdrive's: info on the link itself, try to walk"
    if rm.islink(st, p):
        i = d.uri(p).info(followlinks=False)
        require(i is not None, 'info of a link')
    want = fd.model_apply(st, ('size', p))
    if rm.isfile(st, p):
        fd.same_outcome(d, ('size', p), d.apply(('size', p)), want, hist)
        require(d.uri(p).mtime() is not None, 'mtime of %s' % fd.sp(p))
    elif want[0] == 'no' and not rm.isdir(st, p):
        for q in ('info', 'mtime', 'md5'):
            try:
                getattr(d.uri(p), q)()
            except fd.refusals():
                continue
            except Exception as e:
                require(False, '%s: %s(%s) raised %s' % (d.name, q, fd.sp(p), type(e).__name__), history=fd.show_hist(hist))
            require(False, '%s: %s of the missing %s succeeded' % (d.name, q, fd.sp(p)), history=fd.show_hist(hist))
