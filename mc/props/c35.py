"""C35: the dump of a memory file system is complete and exact."""
import hashlib
import io

from .. import fsdrive as fd
from .. import refmodel as rm
from .. import shapes
from ..common import load, require

NAMES = [('a', 'b', 'c', 'd'), ('p.png', 'g.gif', 't.txt', 'n'), (' x ', '\u00e4#', '.h', 'P.PNG'), ('j.jpg', 's.svg', 'png', 'A.bin'), ('gif', 'a', 'A', 'B.gif.txt'), ('a', 'B', 'c10', 'c9')]
CONTENTS = [b'', b'one line', b'two\nlines\n', 'ä€\U0001f600'.encode('utf-8'), b'\x89PNG\r\n\xff\x00', b'\xe2\x82', b'--- END ---\n', b'x' * 9000 + b'\xc3']
LEAVES = ('f', 'f2', 'lf', 'ld', 'ln', 'lo')
BOUNDS = {
    'quick': 'all forests of up to 3 nodes out of files, directories and links x 6 sets of names x 8 contents, with and without no_binary; dumped twice, and after every removal',
    'thorough': 'forests of up to 4 nodes',
}
ASSUMPTIONS = ['the wording of the dump (START, END, DIR and LINK lines) is taken as it is']
SHAPES = []


def prepare(tier):
    SHAPES[:] = list(shapes.up_to(4 if tier == 'thorough' else 3, LEAVES))


def cases(ctx):
    for i in range(len(SHAPES)):
        for n in range(len(NAMES)):
            yield (i, n)


def build(forest, names, first):
    nodes, k = [], [first]

    def go(fr, base, depth):
        for i, nd in enumerate(fr):
            p = base + (names[(i + depth) % len(names)],)
            if nd in ('f', 'f2'):
                nodes.append((p, ('f', CONTENTS[k[0] % len(CONTENTS)], 0o111 if nd == 'f2' else 0)))
                k[0] += 1
            elif nd == 'lf':
                nodes.append((p, ('l', ('o', 'f'))))
            elif nd == 'ld':
                nodes.append((p, ('l', ('o',))))
            elif nd == 'ln':
                nodes.append((p, ('l', ('nothing',))))
            elif nd == 'lo':
                nodes.append((p, ('l', p)))
            else:
                nodes.append((p, ('d',)))
                go(nd[1], p, depth + 1)
    go(forest, (), 0)
    if len(forest) % 2:
        nodes += [(('o',), ('d',)), (('o', 'f'), ('f', b'outside', 0))]
    return nodes


def expected(d, st, no_binary):
    out = ['MEMORY DUMP: START\n']

    def go(base):
        for p in sorted((p for p in st if len(p) == len(base) + 1 and p[:len(base)] == base), key=lambda p: p[-1]):
            nd, text = st[p], 'memory:///' + '/'.join(p)
            if nd[0] == 'f':
                data = nd[1]
                if no_binary and p[-1].lower().endswith(('.png', '.gif')):
                    shown = 'Binary: ' + hashlib.md5(data).hexdigest()
                else:
                    shown = data.decode('utf-8', 'backslashreplace')
                out.append('--- START %s ---\n%s\n--- END ---\n\n' % (text, shown))
            elif nd[0] == 'l':
                out.append('LINK: %s -> %s\n' % (text, d.uri(nd[1])))
            else:
                out.append('DIR: %s\n' % text)
                go(p)
    go(())
    out.append('MEMORY DUMP: END\n')
    return ''.join(out)


def dump(d, **kw):
    out = io.StringIO()
    d.uri(('x',)).get_connection().dump(out, **kw)
    return out.getvalue()


def compare(d, st, hist, where):
    for kw in ({}, {'no_binary': False}, {'no_binary': True}, {}):
        got, want = dump(d, **kw), expected(d, st, kw.get('no_binary', False))
        require(got == want, 'the dump is not what is there (%s, %s)' % (where, kw), got=got[-3000:], expected=want[-3000:], tree=fd.show_state(st))
    fd.same_state(d, st, 'dump', hist)


def run(ctx, case):
    i, n = case
    forest = SHAPES[i]
    for first in range(len(CONTENTS)):
        if first and not shapes.has(forest, ('f', 'f2')):
            break
        nodes = build(forest, NAMES[n], first)
        st = dict(nodes)
        hist = shapes.ops_for(nodes)
        d = fd.memory_drive()
        fd.replay(d, hist)
        compare(d, st, hist, 'as made')
        ctx.see('states', rm.canon(st))
        ctx.count('traces')
        ctx.count('transitions', 4)
        if first > 1:
            continue
        # after each removal, and with an open handle
        for p in sorted(st, reverse=True):
            if p not in st:
                continue
            op = ('rmr', p)
            fd.model_apply(st, op)
            d.apply(op)
            compare(d, st, hist + (op,), 'after ' + fd.show(op))
            ctx.count('transitions', 4)
    if i == 0:
        handles(ctx)


def handles(ctx):
    "a dump neither needs nor moves the position of a handle that is open"
    for mode in ('rb', 'r', 'r+', 'ab', 'wb'):
        for pos in range(4):
            d = fd.memory_drive()
            f = d.uri(('f',))
            with f.open('wb') as h:
                h.write(b'content')
            h = f.open(mode)
            data = b'' if mode == 'wb' else b'content'
            if mode != 'ab':
                h.seek(pos)
            here = h.tell()
            require(dump(d) == expected(d, {('f',): ('f', data, 0)}, False), 'the dump is not what is there, with an open handle', mode=mode)
            require(h.tell() == here, 'a dump moved the position of an open handle', mode=mode)
            if mode in ('rb', 'r', 'r+'):
                got = h.read()
                require((got if isinstance(got, bytes) else got.encode()) == data[pos:], 'a dump moved the position of an open handle', mode=mode, got=got)
            ctx.count('transitions')
