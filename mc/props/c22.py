"""C22: queries on a zip archive show exactly its files and their directories."""
import io
import zipfile
from itertools import combinations

from .. import refmodel as rm
from ..common import load, require

POOL = ('a', 'ab', 'a/b', 'a/bc', 'ab/c', 'a/b/c', 'abc/d/e', '.h', '.h/x', ' ', 'a b/ ', 'd/', 'd/e/', 'd/e', 'D/E', '\u00e4/\u00e4', 'b', 'b/a', 'a.b', 'A', 'A/B',
        'b%20/c#d', 'a/.h/x')
BOUNDS = {
    'quick': 'all sets of up to 2 out of %d names that fit together, written by this library or another tool, in two orders, in memory, on disk and in an '
             'archive, and all sets of 3 in memory; all names, their directories and near misses asked for' % len(POOL),
    'thorough': 'all sets of up to 3 names everywhere, of 4 in memory',
}
ASSUMPTIONS = ['no name of the archive is both a file and a directory, no name has empty or dot components']


def fits(names):
    files = [n for n in names if not n.endswith('/')]
    return not any(f + '/' == m[:len(f) + 1] for f in files for m in names)


def cases(ctx):
    yield ('missing',)
    for n in range(0, 5 if ctx.thorough else 4):
        for names in combinations(POOL, n):
            if fits(names):
                yield ('set', names)


def model_of(names):
    st = {}
    for n in names:
        parts = tuple(x for x in n.split('/') if x)
        for i in range(1, len(parts)):
            st[parts[:i]] = ('d',)
        st[parts] = ('d',) if n.endswith('/') else ('f', n.encode('utf-8'), 0)
    return st


PROBES = sorted(set(p for n in POOL for k in range(1, 5) for p in [tuple(x for x in n.split('/') if x)[:k]] if p)
                | {('a', 'x'), ('a', 'b', 'x'), ('x',), ('abcd',), ('h',), ('a', 'a'), ('d', 'e', 'f'), ('b', 'a', 'a'), ('a', ' '), ('ab', 'b'), ('a', 'B')})


def run(ctx, case):
    ns = load()
    if case[0] == 'missing':
        return missing(ctx, ns)
    names = case[1]
    st = model_of(names)
    full = len(names) < (4 if ctx.thorough else 3)
    for place in ('memory', 'local', 'inside') if full else ('memory',):
        for writer in ('library', 'tool', 'both'):
            if writer == 'library' and any(n.endswith('/') for n in names):
                continue
            for rev in (False, True):
                if (writer == 'both' or place != 'memory' or not full) and rev:
                    continue
                ns.REG.cleanup(force=True)
                if place == 'memory':
                    text = 'memory:///z.zip'
                elif place == 'local':
                    text = ctx.local_root() + '/z.zip'
                else:
                    text = 'zip://((memory:///y.zip))/z.zip'
                root = ns.URI('zip://((%s))/' % text)
                write(ns, ns.URI(text), root, names[::-1] if rev else names, writer)
                check(ctx, ns, root, st, '%s, written by %s' % (place, writer), full)
                ctx.count('traces')
    ctx.see('states', names)


def write(ns, arch, root, names, writer):
    by_tool = names if writer == 'tool' else names[::2] if writer == 'both' else [n for n in names if n.endswith('/')]
    if by_tool or not names:
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, 'w') as z:
            for n in by_tool:
                z.writestr(n, b'' if n.endswith('/') else n.encode('utf-8'))
        with arch.open('wb') as f:
            f.write(buf.getvalue())
    for n in names:
        if n not in by_tool:
            if n.endswith('/'):
                buf = io.BytesIO(arch.open('rb').read())
                with zipfile.ZipFile(buf, 'a') as z:
                    z.writestr(n, b'')
                with arch.open('wb') as f:
                    f.write(buf.getvalue())
                continue
            with (root / n).open('wb') as f:
                f.write(n.encode('utf-8'))


def check(ctx, ns, root, st, where, full=True):
    for p in PROBES:
        u = root
        for comp in p:
            u = u / comp
        for v in (u,) if not full else (u, root / '/'.join(p), ns.URI(str(root) + '/'.join(p) + '/') if not any(c in '/'.join(p) for c in '?') else u):
            kind = rm.kind_of(st, p)
            got = (v.exists(), v.isfile(), v.isdir(), v.islink())
            want = (kind is not None, kind == 'f', kind == 'd', False)
            require(got == want, '%s: exists, isfile, isdir, islink are wrong' % where, path=str(v), got=got, expected=want, names=sorted(map('/'.join, st)))
            ctx.count('transitions')
        listed(ns, u, st, p, where)
        try:
            with u.open('rb') as f:
                got = f.read()
        except (ns.FileDoesNotExistError, FileNotFoundError):
            got = None
        except IsADirectoryError:
            require(kind == 'd', '%s: not a directory' % where, path=str(u))
            got = None
        require(got == (st[p][1] if kind == 'f' else None), '%s: wrong content' % where, path=str(u), got=got)
    for v in (root, root / '', ns.URI(str(root)[:-1])):
        require((v.exists(), v.isfile(), v.isdir()) == (True, False, True), '%s: the root is no directory' % where, path=str(v))
        listed(ns, v, st, (), where)
    walked = []
    for base, dirs, files in root.walk():
        walked += [(base / f).path for f in files] + [(base / d).path for d in dirs]
    require(sorted(walked) == sorted('/' + '/'.join(p) for p in st), '%s: walk shows something else' % where, got=sorted(walked), names=sorted(map('/'.join, st)))


def listed(ns, u, st, p, where):
    try:
        got = u.listdir()
    except (ns.FileDoesNotExistError, FileNotFoundError, NotADirectoryError):
        got = None
    kind = rm.kind_of(st, p)
    if kind == 'd':
        require(got is not None and len(got) == len(set(got)) and sorted(got) == sorted(rm.children(st, p)), '%s: listdir is wrong' % where,
                path=str(u), got=got, expected=rm.children(st, p))
    else:
        require(got is None, '%s: listdir of what is no directory' % where, path=str(u), got=got)


def missing(ctx, ns):
    for text in ('memory:///z.zip', ctx.local_root() + '/z.zip', 'zip://((memory:///y.zip))/z.zip', 'memory:///d/z.zip'):
        ns.REG.cleanup(force=True)
        root = ns.URI('zip://((%s))/' % text)
        check(ctx, ns, root, {}, 'missing archive %s' % text)
        require(not ns.URI(text).exists(), 'queries created the archive %s' % text)
        ctx.count('traces')
