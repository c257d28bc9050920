"""All small directory trees, as operation lists and model states."""
from itertools import product

from . import refmodel as rm

LEAVES = ('f', 'x', 'e', 'lf', 'ld', 'ln', 'ls')
# some differ in upper and lower case only
NAMES = ('a', 'A', 'b', 'd', 'B', 'D')
ODD = (' a ', '.b', 'c#', 'd%20', '\u00e4', 'f.txt')


def forests(n, leaves):
    "all ordered forests with exactly n nodes; a node is a leaf kind or ('d', forest)"
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for head in trees(first, leaves):
            for rest in forests(n - first, leaves):
                yield (head,) + rest


def trees(n, leaves):
    if n == 1:
        for k in leaves:
            yield k
    for sub in forests(n - 1, leaves):
        yield ('d', sub)


def up_to(n, leaves):
    for k in range(n + 1):
        for f in forests(k, leaves):
            yield f


def place(forest, top, outside, names=NAMES):
    """-> list of (path, model node) for a forest below directory `top` (which is
    included); `outside` is a directory with file 'f' and directory 'd' in it"""
    out = [(top, ('d',))]
    links = []

    def go(fr, base, depth):
        for i, nd in enumerate(fr):
            p = base + (names[(i + depth) % len(names)],)
            tag = ('/'.join(p)).encode('utf-8')
            if nd == 'f':
                out.append((p, ('f', b'<' + tag + b'>', 0)))
            elif nd == 'x':
                out.append((p, ('f', b'x' * 9000 + tag, 0o111)))
            elif nd == 'e':
                out.append((p, ('f', b'', 0)))
            elif nd == 'lf':
                links.append((p, ('l', outside + ('f',))))
            elif nd == 'ld':
                links.append((p, ('l', outside + ('d',))))
            elif nd == 'ln':
                links.append((p, ('l', outside + ('nothing',))))
            elif nd == 'lo':
                links.append((p, ('l', p)))
            elif nd == 'lu':
                links.append((p, ('l', top)))
            elif nd == 'ls':
                links.append((p, ('l', base + (names[(i + 1 + depth) % len(names)],))))
            else:
                out.append((p, ('d',)))
                go(nd[1], p, depth + 1)
    go(forest, top, 0)
    return out + links


def outside(o=('o',)):
    return [(o, ('d',)), (o + ('f',), ('f', b'outside file', 0o100)), (o + ('d',), ('d',)),
            (o + ('d', 'k'), ('f', b'outside kept', 0)), (o + ('d', 's'), ('d',)), (o + ('d', 's', 't'), ('f', b'deep', 0))]


def ops_for(nodes):
    "operations that create the nodes"
    ops = []
    for p, nd in nodes:
        if nd[0] == 'd':
            ops.append(('mkdir', p))
        elif nd[0] == 'f':
            ops.append(('write', p, nd[1]))
            if nd[2]:
                ops.append(('setexec', p, nd[2]))
        else:
            ops.append(('symlink', nd[1], p))
    return tuple(ops)


def state_of(nodes):
    return dict(nodes)


def acyclic(st, top):
    try:
        for _ in rm.walk(st, top):
            pass
        return True
    except rm.Cyclic:
        return False
    except rm.Err:
        return True


def has(forest, kinds):
    for nd in forest:
        if nd in kinds or (isinstance(nd, tuple) and has(nd[1], kinds)):
            return True
    return False


def depth(forest):
    return 1 + max([0] + [depth(nd[1]) for nd in forest if isinstance(nd, tuple)]) if forest else 0
