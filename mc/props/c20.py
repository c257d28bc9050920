"""C20: separate memory file systems share nothing."""
from itertools import combinations, product

from .. import fsdrive as fd
from .. import refmodel as rm
from ..common import load, require

BOUNDS = {
    'quick': 'all histories of 2 operations out of 30 on each of two file systems, interleaved in every order, from 2 trees, for 4 pairs of parameters; '
             'handles, locks, fault callbacks, forced clean-up; every way to get at the same file system',
    'thorough': 'the same for all 15 pairs out of 6 sets of parameters',
}
ASSUMPTIONS = []
A, B, D, F, L = ('a',), ('b',), ('d',), ('d', 'f'), ('l',)
OPS = [('mkdir', A), ('mkdir', D), ('mkdir', B), ('write', A, b'1'), ('write', B, b'22'), ('write', F, b'333'), ('append', A, b'+'), ('append', F, b'+'),
       ('symlink', A, L), ('symlink', D, L), ('symlink', F, B), ('remove', A), ('remove', L), ('remove', F), ('rmr', D), ('copy', A, B, True),
       ('copy', F, A, True), ('copytree', D, B, True), ('move', A, B), ('move', D, B), ('move', F, A), ('setexec', A, 0o111), ('setexec', F, 0o100),
       ('makedirs', ('d', 'x')), ('write', ('d', 'x', 'y'), b'deep'), ('copystat', A, F), ('write', L, b'through')]
TREES = [(), (('write', A, b'A'), ('mkdir', D), ('write', F, b'F'), ('setexec', F, 0o111), ('symlink', A, L))]
# how to get at file systems with different parameters; each a list of ways to spell it
WAYS = [
    [('memory:///', {})],
    [('memory:///?tag=1', {}), ('memory:///', {'tag': '1'})],
    [('memory:///?tag=2', {}), ('memory:///', {'tag': '2'})],
    [('memory:///?username=u', {}), ('memory:///', {'username': 'u'}), ('memory://u@/', {})],
    [('memory:///?username=v', {}), ('memory:///', {'username': 'v'}), ('memory://v@/', {})],
    [('memory:///?username=u&tag=1', {}), ('memory:///?tag=1', {'username': 'u'}), ('memory://u@/', {'tag': '1'})],
]
ORDERS = sorted(set(x for x in product((0, 1), repeat=4) if sum(x) == 2))


def cases(ctx):
    pairs = list(combinations(range(len(WAYS)), 2))
    if not ctx.thorough:
        pairs = [(0, 1), (1, 2), (0, 3), (3, 4)]
    for pair in range(len(WAYS)):
        yield ('ways', pair)
    for pair in combinations(range(len(WAYS)), 2):
        yield ('apart', pair)
    for pair in pairs:
        for tree in range(len(TREES)):
            for op in range(len(OPS)):
                yield ('ops', pair, tree, op)


def root(k, way=0):
    text, kw = WAYS[k][way % len(WAYS[k])]
    return load().URI(text, **dict(kw))


def run(ctx, case):
    ns = load()
    ns.REG.cleanup(force=True)
    if case[0] == 'ways':
        return ways(ctx, ns, case[1])
    if case[0] == 'apart':
        return apart(ctx, ns, *case[1])
    _, pair, tree, first = case
    for second in range(len(OPS)):
        # what the second file system does between
        other = [OPS[(first * 7 + second * 11 + i * 5) % len(OPS)] for i in range(2)]
        todo = [[OPS[first], OPS[second]], other]
        for order in ORDERS:
            ns.REG.cleanup(force=True)
            drives = [fd.Drive(root(k, second + i), 'file system %d' % i) for i, k in enumerate(pair)]
            states = [{}, {}]
            for i in (0, 1):
                for op in TREES[(tree + i) % 2] if tree else TREES[tree]:
                    step(drives, states, i, op, [])
            hist = []
            at = [0, 0]
            for i in order:
                op = todo[i][at[i]]
                at[i] += 1
                hist.append((i,) + op)
                step(drives, states, i, op, hist)
                ctx.count('transitions')
            for i in (0, 1):
                fd.same_state(drives[i], states[i], 'operations on both', [h[1:] for h in hist])
            ctx.see('states', (pair, sorted(states[0].items()), sorted(states[1].items())))
            ctx.count('traces')


def step(drives, states, i, op, hist):
    s2 = dict(states[i])
    try:
        want = fd.model_apply(s2, op)
    except rm.Cyclic:
        return
    got = drives[i].apply(op)
    fd.same_outcome(drives[i], op, got, want, [h[1:] for h in hist])
    if want[0] == 'ok':
        states[i] = s2


def ways(ctx, ns, k):
    "the same parameters: the same tree, whatever the way"
    roots = [root(k, i) for i in range(len(WAYS[k]))]
    base = roots[0]
    roots += [base / 'x' / '..', base.dirname(), (base / 'q').dirname(), ns.URI(base), ns.URI(str(base))] if not WAYS[k][0][1] else []
    roots = [r for r in roots if r.path in ('/', '')]
    for i, r in enumerate(roots):
        f = r / ('f%d' % i)
        with f.open('wb') as h:
            h.write(b'%d' % i)
        for other in roots:
            require(sorted(other.listdir()) == ['f%d' % j for j in range(i + 1)], '%s and %s do not show the same tree' % (r, other))
            with (other / ('f%d' % i)).open('rb') as h:
                require(h.read() == b'%d' % i, '%s and %s do not show the same file' % (r, other))
            require(other.get_connection() is r.get_connection(), 'different connections')
            ctx.count('transitions')
    ns.REG.cleanup(force=True)
    for r in roots:
        require(r.listdir() == [], '%s: not empty after a forced clean-up' % r)
    ctx.count('traces')
    ctx.see('states', ('ways', k))


class Hit(Exception):
    pass


def apart(ctx, ns, i, j):
    x, y = root(i), root(j)
    for u in (x, y):
        (u / 'd').mkdir()
        with (u / 'f').open('wb') as h:
            h.write(b'0123')
    # handles
    hx, hy = (x / 'f').open('r+b'), (y / 'f').open('r+b')
    hx.write(b'X')
    require((y / 'f').open('rb').read() == b'0123', 'a write shows in another file system')
    require(hy.read(1) == b'0', 'a write shows in another file system')
    hy.write(b'Y')
    require((x / 'f').open('rb').read() == b'X123' and (y / 'f').open('rb').read() == b'0Y23', 'handles are mixed up')
    # metadata
    (x / 'f').set_exec(0o111)
    (x / 'f').info(dict(mtime=5.0))
    require((y / 'f').info().mtime != 5.0 and not (y / 'f').isexec(), 'metadata shows in another file system')
    (x / 'f')._manipulate(mtime=7.0)
    require((y / 'f').mtime() != 7.0 and (x / 'f').mtime() == 7.0, '_manipulate shows in another file system')
    # locks
    with (x / 'f').lock():
        with (y / 'f').lock(fail_on_lock=True):
            pass
        with (x / 'new').lock():
            require(not (y / 'new').exists(), 'a lock file shows in another file system')
            with (y / 'new').lock(fail_on_lock=True, cleanup=True):
                pass
            require((x / 'new').exists(), 'cleaning up removed the file of another file system')
    (x / 'f')._manipulate(lock=True)
    with (y / 'f').lock(fail_on_lock=True):
        pass
    (x / 'f')._manipulate(unlock=True)

    # fault callbacks
    def boom(path, func):
        raise Hit()
    (x / 'f')._manipulate(next_op_callback=boom)
    (y / 'f').exists()
    (y / 'f').open('rb').close()
    try:
        (x / 'f').exists()
    except Hit:
        pass
    else:
        require(False, 'the callback was not called')
    (y / 'f')._manipulate(next_op_callback=None)
    try:
        (x / 'f').exists()
    except Hit:
        pass
    else:
        require(False, 'the callback was switched off by another file system')
    # links
    (x / 'f2').open('wb').close()
    (x / 'f2').symlink(x / 'l')
    require(not (y / 'l').islink() and not (y / 'l').exists(), 'a link shows in another file system')
    # a copy is independent
    for op in ('copy', 'move'):
        src = x / ('src' + op)
        with src.open('wb') as h:
            h.write(b'1')
        h = src.open('ab')
        getattr(src, op)(y / 'dst')
        h.write(b'2')
        if op == 'copy':
            with src.open('ab') as h:
                h.write(b'3')
        require((y / 'dst').open('rb').read() == b'1', 'a %s shares its content with the original' % op)
        with (y / 'dst').open('ab') as h:
            h.write(b'9')
        if op == 'copy':
            require(src.open('rb').read() == b'123', 'the original shares its content with the copy')
    (x / 'd').copy(y / 'd2', recursive=True)
    (x / 'd' / 'sub').mkdir()
    require((y / 'd2').listdir() == [], 'copied directories share their content')
    # a forced clean-up starts all over
    locked = (x / 'f3').lock()
    locked.__enter__()
    ns.REG.cleanup(force=True)
    for u in (x, y):
        require(u.listdir() == [], 'not empty after a forced clean-up')
        require(not (u / 'f').exists(), 'something is left after a forced clean-up')
        with (u / 'f3').lock(fail_on_lock=True):
            pass
    ctx.count('traces')
    ctx.count('transitions', 40)
    ctx.see('states', ('apart', i, j))
