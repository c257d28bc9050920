"""C04: what is written is what is read, size and md5."""
import hashlib
import zipfile  # noqa: F401  (imported here so that workers share it)
from itertools import product

from .. import fsdrive as fd
from ..common import load, require, Violated

SIZES_Q = (0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16385)
SIZES_T = SIZES_Q + (3, 5, 100, 4094, 4098, 8190, 8194, 16383, 16384, 32768, 33000)
LARGE = (65535, 65537, (1 << 20) + 1)
BOUNDS = {
    'quick': 'sizes %s x 7 chunkings x 6 write histories x 10 ways to read, with and without line breaks; some of it with sizes %s; texts up to 5 of 6 characters, and up to 3 with one of 9 odd characters at any place, in 2 chunks x 7 ways to read; 3 backends' % (SIZES_Q, LARGE),
    'thorough': 'sizes %s; texts up to 6 characters' % (SIZES_T,),
}
ASSUMPTIONS = ['text without carriage returns', 'zip handles are binary']
BACKENDS = ('memory', 'local', 'zipmem', 'ziplocal')
CHARS = ('a', '\n', '\u00e4', '\u20ac', '\U0001f600', ' ')
# characters something else than this library might take for a mark, for the
# end of a line or for the end of a file
ODD = ('\ufeff', '\u2028', '\x0c', '\x85', '\x00', '\x1a', 'e\u0301', '\ufffe', '\x1c')


def blob(n, salt=0):
    "no two blocks alike, newlines and high bytes included"
    unit = bytes((7 * i + salt + i // 251) % 256 for i in range(1021))
    return (unit * (n // 1021 + 1))[:n]


def chunkings(n):
    if n in LARGE:
        yield (n,)
        yield tuple([65536] * (n // 65536) + [n % 65536])
        return
    yield (n,)
    yield (0, n, 0)
    for c in (1, 1000, 4096, 8192, 5):
        if c < n and n / c <= 600:
            yield tuple([c] * (n // c) + ([n % c] if n % c else []))
    if n > 1:
        yield (1, n - 1)
        yield (n - 1, 1)


WRITERS = ('w', 'over longer', 'over shorter', 'a', 'w+a', 'aa')
READERS = ('all', 'none', 'neg', 'chunk4096', 'chunk3', 'chunk8192', 'lines', 'iter', 'readlines', 'default')


def cases(ctx):
    for b in BACKENDS:
        for n in (SIZES_T if ctx.thorough else SIZES_Q):
            for w in WRITERS:
                yield ('bin', b, n, w)
        for n in (SIZES_T if ctx.thorough else SIZES_Q) + LARGE:
            for w in ('w', 'aa'):
                yield ('bin', b, n, w + ' line')
        for n in LARGE:
            for w in ('w', 'over longer', 'w+a'):
                yield ('bin', b, n, w)
    for b in ('memory', 'local'):
        for n in range(0, 7 if ctx.thorough else 6):
            for first in CHARS[:max(1, n and len(CHARS))]:
                yield ('text', b, n, first)
        for c in ODD:
            for n in range(1, 5 if ctx.thorough else 4):
                yield ('text', b, n, c)


def place(ctx, backend):
    ns = load()
    ns.REG.cleanup(force=True)
    if backend == 'memory':
        return ns.URI('memory:///') / 'file'
    if backend == 'local':
        return ns.URI(ctx.local_root()) / 'file'
    if backend == 'zipmem':
        return ns.URI('zip://((memory:///arch.zip))/') / 'file'
    return ns.URI('zip://((%s/arch.zip))/' % ctx.local_root()) / 'file'


def put(u, mode, data, chunks):
    with u.open(mode) as f:
        i = 0
        for c in chunks:
            f.write(data[i:i + c])
            i += c


def get(u, how):
    if how == 'default':
        with u.open() as f:
            x = f.read()
            return x if isinstance(x, bytes) else x.encode('utf-8')
    with u.open('rb') as f:
        if how == 'all':
            return f.read()
        if how == 'none':
            return f.read(-1) + f.read()
        if how == 'neg':
            x = f.read(1)
            return x + f.read(-1)
        if how.startswith('chunk'):
            n, out = int(how[5:]), []
            while True:
                x = f.read(n)
                require(len(x) <= n, 'read(%d) gave more' % n)
                if not x:
                    break
                out.append(x)
            return b''.join(out)
        if how == 'lines':
            out = []
            while True:
                x = f.readline()
                if not x:
                    break
                out.append(x)
        elif how == 'iter':
            out = [x for x in f]
        else:
            out = list(f.readlines())
        for x in out[:-1]:
            require(x.endswith(b'\n'), '%s gave less than a line' % how)
        for x in out:
            require(b'\n' not in x[:-1], '%s gave more than a line' % how)
        return b''.join(out)


def run(ctx, case):
    if case[0] == 'bin':
        return binary(ctx, *case[1:])
    return text(ctx, *case[1:])


def binary(ctx, backend, n, writer):
    zipped = backend.startswith('zip')
    for chunks in chunkings(n):
        u = place(ctx, backend)
        data = blob(n)
        if writer.endswith(' line'):
            # all in one
            data = data.replace(b'\n', b'N')
        neighbour = u.dirname() / 'file2'
        put(neighbour, 'wb', b'other', (5,))
        if writer == 'over longer':
            put(u, 'wb', blob(n + 5000, 9), (n + 5000,))
        elif writer == 'over shorter':
            put(u, 'wb', blob(n // 2, 9), (n // 2,))
        kind = writer.split(' line')[0]
        if kind in ('w', 'over longer', 'over shorter'):
            put(u, 'wb', data, chunks)
            want = data
        elif kind == 'a':
            put(u, 'ab', data, chunks)
            want = data
        elif kind == 'w+a':
            put(u, 'wb', data, chunks)
            put(u, 'ab', data[::-1], chunks)
            want = data + data[::-1]
        else:
            put(u, 'ab', data, chunks)
            put(u, 'ab', b'tail', (4,))
            want = data + b'tail'
        for how in READERS:
            if how == 'default' and not zipped or how == 'chunk3' and n in LARGE:
                continue
            got = get(u, how)
            ctx.count('transitions')
            if got != want:
                raise Violated('%s: %d bytes written (%s, chunks %r...), read (%s) gives %s' % (
                    backend, len(want), writer, chunks[:4], how,
                    '%d bytes' % len(got) if len(got) != len(want) else 'other content'))
        require(u.md5() == hashlib.md5(want).hexdigest(), '%s: md5 of %d bytes is wrong' % (backend, len(want)))
        if not zipped:
            require(u.info().size == len(want), '%s: info().size is %r after writing %d bytes' % (backend, u.info().size, len(want)))
        with neighbour.open('rb') as f:
            require(f.read() == b'other', '%s: a neighbour changed' % backend)
        ctx.count('traces')
        ctx.see('states', (backend, n, writer, chunks))
    ctx.sample({'backend': backend, 'size': n, 'history': writer})


def texts(n, first):
    if n == 0:
        yield ''
        return
    if first in ODD:
        # at every place, and together with each of the others
        for i in range(n):
            for t in product(CHARS + ODD if n < 4 else CHARS[:3] + (first,), repeat=n - 1):
                yield ''.join(t[:i]) + first + ''.join(t[i:])
        return
    for t in product(CHARS, repeat=n - 1):
        yield first + ''.join(t)


def lines_of(s):
    "only a newline ends a line"
    out = [x + '\n' for x in s.split('\n')]
    out[-1] = out[-1][:-1]
    return out if out[-1] else out[:-1]


def text(ctx, backend, n, first):
    u = place(ctx, backend)
    for s in texts(n, first):
        cut = len(s) // 2
        with u.open('w') as f:
            f.write(s[:cut])
            f.write(s[cut:])
        raw = s.encode('utf-8')
        with u.open('rb') as f:
            got = f.read()
        require(got == raw, '%s: text %r is stored as %r' % (backend, s, got))
        with u.open() as f:
            x = f.read()
        require(x == s, '%s: text %r reads back as %r' % (backend, s, x))
        for k in (1, 2, 3):
            parts = []
            with u.open('r') as f:
                while True:
                    x = f.read(k)
                    if not x:
                        break
                    parts.append(x)
            require(parts == [s[i:i + k] for i in range(0, len(s), k)],
                    '%s: text %r read by %d gives %r' % (backend, s, k, parts))
        want = lines_of(s)
        with u.open('r') as f:
            it = [x for x in f]
        with u.open('r') as f:
            rl = list(f.readlines())
        with u.open('r') as f:
            one = [f.readline() for _ in want] + [f.readline()]
        require(it == want and rl == want and one == want + [''], '%s: lines of %r are wrong' % (backend, s), got=[it, rl, one])
        with u.open('r') as f:
            x = f.read(1)
            y = f.readline()
            z = f.read()
        require(x + y + z == s, '%s: text %r read in a mixture of ways gives %r' % (backend, s, x + y + z))
        require(u.md5() == hashlib.md5(raw).hexdigest(), '%s: md5 of %r' % (backend, s))
        require(u.info().size == len(raw), '%s: size of %r is %r' % (backend, s, u.info().size))
        if n <= 4:
            with u.open('a') as f:
                f.write(s)
            with u.open('r') as f:
                x = f.read()
            require(x == s + s, '%s: %r appended to itself is %r' % (backend, s, x))
        ctx.count('transitions', 9)
        ctx.count('traces')
        ctx.see('states', (backend, s))
