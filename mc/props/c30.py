"""C30: a backend registered for a scheme serves that scheme, and only that."""
import hashlib
import inspect
import itertools
import os
import stat
import subprocess
import sys
import textwrap

from .. import refmodel as rm
from .. import shapes
from ..common import load, require, Violated, REPO, VERIF
from ..fsdrive import Drive, model_apply, same_outcome, same_state, show, show_state

BOUNDS = {
    'quick': 'every public operation x its argument combinations x 3 kinds of answer on a recording backend; copies of a backend that copies by itself, on 4 pairs of connections; every operation on 18 texts of unregistered schemes; '
             'all subsets of 5 kinds of broken plug-ins in 3 places; every default operation in all forests of up to 3 nodes (with links: 2) on backends that '
             'implement the primitives only',
    'thorough': 'forests of up to 4 nodes (with links: 3)',
}
ASSUMPTIONS = ['a backend with links that does not tell which paths are the same file is only asked for what does not depend on it']

SIGNATURES = {
    'open': lambda path, options=None, mimetype='application/octet-stream': 0,
    'listdir': lambda path: 0, 'mkdir': lambda path: 0, 'makedirs': lambda path: 0, 'exists': lambda path: 0, 'isfile': lambda path: 0,
    'isdir': lambda path: 0, 'islink': lambda path: 0, 'readlink': lambda path: 0, 'mtime': lambda path: 0,
    'removefile': lambda path: 0, 'removedir': lambda path: 0,
    'isexec': lambda path, mode: 0, 'set_exec': lambda path, mode: 0, 'symlink': lambda target, link_name: 0,
    'info': lambda path, set_info=None, followlinks=True: 0, 'sync': lambda source, dest, options: 0, 'copystat': lambda path, other: 0,
    'copy': lambda source, dest, recursive=False, ignore=None, followlinks=True: 0, 'move': lambda source, destination: 0,
    'walk': lambda top, topdown=True, followlinks=True: 0, 'glob': lambda path, pattern: 0, 'lock': lambda path, fail_on_lock, cleanup: 0,
    'switch': lambda path, branch: 0, 'update': lambda path, recursive=False, clean=False: 0, 'log': lambda path, limit=0, **kw: 0,
    'log_by_time': lambda path, start_time=None, stop_time=None: 0,
}
ALL3 = stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH


def calls(U):
    """(operation, args, kwargs, what the backend must be asked (after the path))"""
    o = U('revrec://h/other')
    yield 'exists', (), {}, ()
    for n in ('isfile', 'isdir', 'islink', 'readlink', 'mtime', 'listdir', 'mkdir', 'makedirs'):
        yield n, (), {}, ()
    for a, k, w in [((), {}, (None, 'application/octet-stream')), (('wb',), {}, ('wb', 'application/octet-stream')), (('r', 'text/plain'), {}, ('r', 'text/plain')),
                    ((), {'options': 'a'}, ('a', 'application/octet-stream')), ((), {'mimetype': 'm', 'options': 'rb'}, ('rb', 'm'))]:
        yield 'open', a, k, w
    for a, k, w in [((), {}, (ALL3,)), ((stat.S_IXOTH,), {}, (stat.S_IXOTH,)), ((), {'mode': stat.S_IXGRP}, (stat.S_IXGRP,))]:
        yield 'isexec', a, k, w
    for m in (0, stat.S_IXUSR, ALL3):
        yield 'set_exec', (m,), {}, (m,)
        yield 'set_exec', (), {'mode': m}, (m,)
    for n in ('symlink', 'copystat', 'move'):
        yield n, (o,), {}, (o,)
    for rec, ign, fol in itertools.product((False, True), (None, ['x'], ()), (True, False)):
        yield 'copy', (o,), {'recursive': rec, 'ignore': ign, 'followlinks': fol}, (o, rec, ign, fol)
        yield 'copy', (o, rec, ign, fol), {}, (o, rec, ign, fol)
    yield 'copy', (o,), {}, (o, False, None, True)
    si = object()
    for a, k, w in [((), {}, (None, True)), ((si,), {}, (si, True)), ((si, False), {}, (si, False)), ((), {'followlinks': False}, (None, False)),
                    ((), {'set_info': si}, (si, True))]:
        yield 'info', a, k, w
    for td, fol in itertools.product((True, False), (True, False)):
        yield 'walk', (td, fol), {}, (td, fol)
        yield 'walk', (), {'topdown': td, 'followlinks': fol}, (td, fol)
    yield 'walk', (), {}, (True, True)
    yield 'glob', ('*.x',), {}, ('*.x',)
    yield 'glob', (), {'pattern': 'p?'}, ('p?',)
    yield 'sync', (o,), {}, (o, '')
    yield 'sync', (o, 'z'), {}, (o, 'z')
    for f, c in itertools.product((False, True), repeat=2):
        yield 'lock', (f, c), {}, (f, c)
        yield 'lock', (), {'fail_on_lock': f, 'cleanup': c}, (f, c)
    yield 'lock', (), {}, (False, False)
    yield 'switch', ('b',), {}, ('b',)
    for a, k, w in [((), {}, (True, False)), ((False,), {}, (False, False)), ((True, True), {}, (True, True)), ((), {'clean': True}, (True, True))]:
        yield 'update', a, k, w
    for a, k, w in [((), {}, (0, {})), ((5,), {}, (5, {})), ((), {'limit': 3, 'author': 'me'}, (3, {'author': 'me'}))]:
        yield 'log', a, k, w
    for a, k, w in [((), {}, (None, None)), ((1, 2), {}, (1, 2)), ((), {'stop_time': 7}, (None, 7))]:
        yield 'log_by_time', a, k, w


QUERIES = ('exists', 'isfile', 'isdir', 'islink')


class Odd(Exception):
    pass


UNKNOWN = ['nosuch:///a/b', 'nosuch://h/a', 'nosuch://u:p@h:1/a/b?k=v', 'a+b.c-d://h/x', 'memoryx:///a', 'fil://h/a', 'revrec2:///x',
           'memory+x:///a', 'x+memory:///a', 'memory.x:///a', 'memory-x:///a', 'x.file:///a', 'rec+rec://h/a', 'file+zip://h/a', 'filex:///a', 'zipx://h/a', 'me:///a', 'le://h/a']
BROKEN = {
    'missing_module': ('mcb_nothing:Thing', None),
    'raises': ('mcb_raises:Thing', 'raise RuntimeError("no")'),
    'import_error': ('mcb_import:Thing', 'import mcb_not_there'),
    'syntax': ('mcb_syntax:Thing', 'def ('),
    'no_attribute': ('mcb_noattr:Thing', 'x = 1'),
}


def cases(ctx):
    yield ('dispatch',)
    for i in range(len(UNKNOWN)):
        yield ('unknown', i)
    yield ('schemes',)
    yield ('notimplemented',)
    yield ('internal',)
    names = sorted(BROKEN)
    for n in range(len(names) + 1):
        for sub in itertools.combinations(names, n):
            for where in (('before', 'after', 'between') if n else ('before',)):
                yield ('plugins', sub, where)
    n = 4 if ctx.thorough else 3
    for i, f in enumerate(shapes.up_to(n, ('f', 'x', 'e'))):
        yield ('bare', f)
    for f in shapes.up_to(n - 1, ('f', 'lf', 'ld', 'ln')):
        if shapes.has(f, ('lf', 'ld', 'ln')):
            yield ('mini', f)


def run(ctx, case):
    globals()['run_' + case[0]](ctx, *case[1:])


def run_dispatch(ctx):
    ns = load()
    U = ns.URI
    plug = ns.plug
    R = plug.RevisionedRecorder
    for text in ('revrec://h/a/b', 'revrec:///a', 'revrec://u:p@h:1/a?k=v', 'revrec://h/'):
        for op, a, k, want in calls(U):
            for answer in (None, object(), [U('revrec://h/z')], False, 0, '', Odd('x'), OSError(5, 'y'), KeyError('q'), NotImplementedError()):
                u = U(text)
                require(type(u) is R.uri, 'URI() gave an object of the wrong class', uri=text, got=type(u).__name__)
                plug.ANSWERS.clear()
                plug.ANSWERS[op] = answer
                del R.calls[:]
                err = got = None
                try:
                    got = getattr(u, op)(*a, **k)
                except Exception as e:
                    err = e
                what = '%s%r %r' % (op, a, k)
                if isinstance(answer, Exception):
                    require(err is answer, 'the exception of the backend is lost', call=what, got=repr(err or got), expected=repr(answer))
                else:
                    require(err is None, 'the call failed', call=what, error=repr(err))
                    require(got is answer, 'the result of the backend is lost', call=what, got=repr(got), expected=repr(answer))
                asked = [c[1] for c in R.calls]
                require(asked.count(op) == 1 and not set(asked) - set(QUERIES) - {op}, 'not exactly this operation was asked of the backend', call=what, got=asked)
                fs, _, args, kw = R.calls[asked.index(op)]
                require(fs is u.get_connection(), 'another connection was asked', call=what)
                b = inspect.signature(SIGNATURES[op]).bind(*args, **kw)
                b.apply_defaults()
                vals = tuple(b.arguments.values())
                require(isinstance(vals[0], ns.fs.BaseUri) and vals[0] == u and vals[0].get_connection() is fs, 'another path was given', call=what, got=repr(vals[0]))
                require(len(vals) == len(want) + 1 and all(x is y or (type(x) is type(y) and x == y) for x, y in zip(vals[1:], want)),
                        'other arguments were given', call=what, got=repr(vals[1:]), expected=repr(want))
                ctx.count('transitions')
        # the operations that are made of several primitives
        for isl, ex, isd, isf, rec in itertools.product((False, True), repeat=5):
            u = U(text)
            plug.ANSWERS.clear()
            marker = object()
            plug.ANSWERS.update(islink=isl, exists=ex, isdir=isd, isfile=isf, removefile=marker, removedir=marker, walk=(), listdir=[])
            del R.calls[:]
            err = None
            try:
                u.remove(rec)
            except ns.FileDoesNotExistError as e:
                err = e
            did = [(c[1], c[2]) for c in R.calls if c[1] in ('removefile', 'removedir')]
            if isl or (ex and not isd):
                want = ['removefile']
            elif ex and isd:
                want = ['removedir']
            else:
                want = []
            require([d[0] for d in did] == want and all(d[1] == (u,) for d in did), 'remove asked the wrong primitive', answers=[isl, ex, isd, isf, rec], got=repr(did))
            require((err is not None) == (not isl and not ex), 'remove of a missing path', answers=[isl, ex, isd, isf, rec], error=repr(err))
            ctx.count('transitions')
        ctx.count('traces')
        ctx.see('states', text)


def run_unknown(ctx, i):
    ns = load()
    u = ns.URI(UNKNOWN[i])
    f = ns.fs
    require(isinstance(u, f.BaseUri), 'not a path', uri=UNKNOWN[i])
    # everything about the text works
    str(u), repr(u), u.path, u.port, u.scheme, u.is_absolute, u.basename(), u.last(), u.splitext(), u.hostname, u.username, u.password
    for v in (u, u / 'x', u.join('x', 'y'), u.dirname(), u.split()[0], u + '.s', ns.URI(u)):
        require(v.scheme == UNKNOWN[i].partition(':')[0], 'the scheme is lost', uri=UNKNOWN[i], got=str(v))
        require(v == ns.URI(str(v)) or '?' in UNKNOWN[i], 'the text does not name it', uri=str(v))
        other = ns.URI('memory:///m')
        before = dict(ns.REG.connections)
        for op, a, k, want in itertools.chain(calls(ns.URI), [('md5', (), {}, ()), ('remove', (), {}, ()), ('remove', (True,), {}, ()), ('_manipulate', (), {'lock': True}, ())]):
            if op in ('switch', 'update', 'log', 'log_by_time'):
                continue
            a = tuple(other if isinstance(x, f.BaseUri) else x for x in a)
            try:
                got = getattr(v, op)(*a, **k)
            except ns.base.NoSchemeError:
                pass
            except Exception as e:
                raise Violated('an operation on an unregistered scheme raised %s' % type(e).__name__, uri=str(v), call=op, error=str(e))
            else:
                raise Violated('an operation on an unregistered scheme worked', uri=str(v), call=op, got=repr(got))
            ctx.count('transitions')
        require(dict(ns.REG.connections) == before, 'a connection was opened', uri=str(v))
        ctx.see('states', str(v))
        # as the other side of an operation
        src = ns.URI('memory:///src-%d' % i)
        with src.open('wb') as o:
            o.write(b'x')
        for op in ('copy', 'move'):
            try:
                getattr(src, op)(v)
            except ns.base.NoSchemeError:
                pass
            else:
                raise Violated('%s to an unregistered scheme worked' % op, uri=str(v))
            with src.open('rb') as o:
                require(o.read() == b'x', 'the source was changed', call=op)
            ctx.count('transitions')
    ctx.count('traces')


def run_schemes(ctx):
    ns = load()
    plug, f = ns.plug, ns.fs
    from abl.vpath.base.localfs import LocalFileSystem, LocalFileSystemUri
    from abl.vpath.base.memory import MemoryFileSystem, MemoryFileSystemUri
    from abl.vpath.base.zip import ZipFileSystem, ZipFileSystemUri
    table = {
        'file': (LocalFileSystem, LocalFileSystemUri, ['/a', 'a', './a', '.', '../a', 'file:///a', 'file://./a', 'a/b:c', '/http/memory', 'memory', 'zip:', ':', 'x y', '/a?b=c']),
        'memory': (MemoryFileSystem, MemoryFileSystemUri, ['memory:///', 'memory:///a', 'memory:///a?k=v', 'memory://((x))/a']),
        'zip': (ZipFileSystem, ZipFileSystemUri, ['zip://((/a.zip))/b', 'zip://((memory:///a.zip))/', 'zip://((zip://((/a.zip))/b.zip))/c']),
        'mini': (plug.MiniFileSystem, plug.MiniUri, ['mini:///a', 'mini://h/']),
        'bare': (plug.BareFileSystem, plug.MiniUri, ['bare:///a/memory:']),
        'rec': (plug.RecordingFileSystem, f.BaseUri, ['rec:///a', 'rec://memory/a']),
        'rec2': (plug.RecordingFileSystem2, f.BaseUri, ['rec2:///a']),
        'revrec': (plug.RevisionedRecorder, f.RevisionedUri, ['revrec:///a']),
        'http': (plug.RecordingHttp, f.BaseUri, ['http://h/a', 'http://h/a?k=v']),
        'https': (plug.RecordingHttps, f.BaseUri, ['https://h/a', 'https://h/a?k=v']),
    }
    require(set(f.SCHEME_REGISTRY) == set(table) == set(ns.REG.schemes), 'the registered schemes are wrong', got=sorted(f.SCHEME_REGISTRY), expected=sorted(table))
    for scheme, (backend, cls, texts) in table.items():
        for t in texts:
            u = ns.URI(t)
            for v in (u, ns.URI(u), u / 'x', u.dirname(), u + 'y'):
                require(v.scheme == scheme and type(v) is cls, 'URI() gave the wrong class', uri=t, derived=str(v), got=[v.scheme, type(v).__name__])
                ctx.count('transitions')
            if scheme != 'zip':
                require(type(u.get_connection()) is backend, 'the wrong backend serves the scheme', uri=t, got=type(u.get_connection()).__name__)
            ctx.see('states', t)
    # a scheme that is registered at run time
    for late in ('late', 'l+a.t-e2'):
        class Late(plug.RecordingFileSystem):
            scheme = late

        class LateUri(f.BaseUri):
            pass
        u = ns.URI(late + ':///a')
        try:
            u.exists()
            raise Violated('an unregistered scheme worked', uri=str(u))
        except ns.base.NoSchemeError:
            pass
        f.CONNECTION_REGISTRY.register(late, Late)
        f.SCHEME_REGISTRY[late] = LateUri
        try:
            require(u.exists() is True, 'a URI made before its scheme was registered does not work')
            v = ns.URI(late + ':///a')
            require(type(v) is LateUri and type(v.get_connection()) is Late, 'a scheme registered at run time is not served', got=type(v).__name__)
            require(ns.URI('memory:///late-%s' % late).exists() is False, 'other schemes are changed')

            # the last one that is registered serves it
            class Later(Late):
                pass
            f.CONNECTION_REGISTRY.register(late, Later)
            w = ns.URI(late + '://elsewhere/a')
            require(w.exists() is True and type(w.get_connection()) is Later, 'a scheme registered anew is served by the former backend',
                    got=type(w.get_connection()).__name__)
        finally:
            del f.CONNECTION_REGISTRY.schemes[late], f.SCHEME_REGISTRY[late]
            ns.REG.cleanup(force=True)
        ctx.count('transitions', 6)
    ctx.count('traces')


def run_internal(ctx):
    "a backend that copies by itself does so within one connection, and gets all it needs for it"
    ns = load()
    f, plug = ns.fs, ns.plug
    asked = []
    answer = []

    class Copies(plug.BareFileSystem):
        scheme = 'copies'

        def internal_copy(self, *args, **kwargs):
            b = inspect.signature(lambda source, dest, recursive, ignore: 0).bind(*args, **kwargs)
            asked.append((self,) + tuple(b.arguments[n] for n in ('source', 'dest', 'recursive', 'ignore')))
            if isinstance(answer[0], Exception):
                raise answer[0]
            return answer[0]
    f.CONNECTION_REGISTRY.register('copies', Copies)
    f.SCHEME_REGISTRY['copies'] = f.BaseUri
    plug.Controls.faults = None
    try:
        for rec, ign, ans, way in itertools.product((False, True), (None, ['x'], ('a', 'b'), ()), (None, 'done', 0, Odd('x')), ('args', 'keywords')):
            for there in ('copies://h/b', 'copies://i/b', 'copies://h/b?k=v', 'memory:///b'):
                ns.REG.cleanup(force=True)
                src, dst = ns.URI('copies://h/a'), ns.URI(there)
                if rec:
                    src.mkdir()
                    (src / 'n').mkdir()
                else:
                    with src.open('wb') as o:
                        o.write(b'x')
                require(not dst.exists(), 'a new target is there')
                del asked[:]
                answer[:] = [ans]
                err = got = None
                try:
                    got = src.copy(dst, rec, ign) if way == 'args' else src.copy(dst, ignore=ign, recursive=rec)
                except Odd as e:
                    err = e
                what = dict(target=there, recursive=rec, ignore=ign)
                if there == 'copies://h/b':
                    require([(a[0], a[3]) for a in asked] == [(src.get_connection(), rec)] and list(asked[0][4] or ()) == list(ign or ())
                            and asked[0][1] == src and asked[0][2] == dst, 'the backend is asked for another copy', got=repr(asked), **what)
                    require(err is ans if isinstance(ans, Exception) else err is None and got is ans, 'the result of the backend is lost', got=repr(err or got), **what)
                else:
                    require(not asked and err is None, 'the backend is asked to copy to another connection', got=repr(asked), **what)
                    require(dst.isdir() and (dst / 'n').isdir() if rec else dst.isfile(), 'the copy is missing', **what)
                ctx.count('transitions')
                ctx.see('states', (rec, ign, there))
    finally:
        del f.CONNECTION_REGISTRY.schemes['copies'], f.SCHEME_REGISTRY['copies']
        ns.REG.cleanup(force=True)
    ctx.count('traces')


def run_notimplemented(ctx):
    "what a backend does not implement is refused as such"
    ns = load()
    f = ns.fs

    class Nothing(f.RevisionedFileSystem):
        scheme = 'nothing'

        def _initialize(self):
            pass

    class NoLinks(Nothing):
        def supports_symlinks(self):
            return False

    class Links(Nothing):
        def supports_symlinks(self):
            return True
    for cls in (Nothing, NoLinks, Links):
        f.CONNECTION_REGISTRY.register('nothing', cls)
        f.SCHEME_REGISTRY['nothing'] = f.RevisionedUri
        try:
            for op, a, k, want in itertools.chain(calls(ns.URI), [('md5', (), {}, ()), ('remove', (), {}, ()), ('remove', (True,), {}, ())]):
                u = ns.URI('nothing:///a/b')
                if op == 'log' and 'author' in k:
                    continue
                a = tuple(ns.URI('nothing:///o') if isinstance(x, f.BaseUri) else x for x in a)
                err = got = None
                try:
                    got = getattr(u, op)(*a, **k)
                    if op == 'walk':
                        got = list(got)
                except Exception as e:
                    err = e
                if cls is NoLinks and op == 'islink':
                    require(err is None and got is False, 'islink of a backend without links is not False', got=repr(got), error=repr(err))
                elif cls is NoLinks and op in ('readlink', 'symlink'):
                    require(isinstance(err, ns.base.OperationIsNotSupportedOnPlatform), 'links are not refused as not supported', call=op, got=repr(err))
                else:
                    require(isinstance(err, NotImplementedError), 'an operation that the backend does not implement is not refused as such', call=op, args=repr(a),
                            got=repr(err or got))
                ctx.count('transitions')
        finally:
            del f.CONNECTION_REGISTRY.schemes['nothing'], f.SCHEME_REGISTRY['nothing']
            ns.REG.cleanup(force=True)
    ctx.count('traces')


PROBE = """
import sys, warnings
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.path[:0] = [%(repo)r, %(verif)r] + %(path)r
from abl.vpath.base import URI
from abl.vpath.base import fs
u = URI('memory:///x')
with u.open('wb') as f:
    f.write(b'1')
assert URI('memory:///x').md5()
assert URI('good1:///x').exists() is True and type(URI('good2:///x').get_connection()).scheme == 'good2'
sys.stderr.write('SCHEMES ' + ' '.join(sorted(fs.SCHEME_REGISTRY)) + '\\n')
sys.stderr.write('FACTORIES ' + ' '.join(sorted(fs.CONNECTION_REGISTRY.schemes)) + '\\n')
"""
GOOD = """
from abl.vpath.base.fs import BaseUri, FileSystem
class Good1(FileSystem):
    scheme = 'good1'
    uri = BaseUri
    def _initialize(self): pass
    def exists(self, path): return True
class Good2(Good1):
    scheme = 'good2'
"""


def run_plugins(ctx, broken, where):
    root = ctx.local_root()
    good, bad = os.path.join(root, 'good'), os.path.join(root, 'bad')

    def dist(top, name, entries, mods):
        d = os.path.join(top, '%s-1.0.dist-info' % name)
        os.makedirs(d)
        with open(os.path.join(d, 'METADATA'), 'w') as f:
            f.write('Metadata-Version: 2.1\nName: %s\nVersion: 1.0\n' % name)
        with open(os.path.join(d, 'entry_points.txt'), 'w') as f:
            f.write('[abl.vpath.plugins]\n' + ''.join('%s = %s\n' % e for e in entries))
        for n, text in mods:
            with open(os.path.join(top, n + '.py'), 'w') as f:
                f.write(text + '\n')
    goods = [('good1', 'mcb_good:Good1'), ('good2', 'mcb_good:Good2')]
    bads = [('bad_' + b, BROKEN[b][0]) for b in broken]
    mods = [(BROKEN[b][0].partition(':')[0], BROKEN[b][1]) for b in broken if BROKEN[b][1] is not None]
    if where == 'between':
        dist(good, 'mcb', goods[:1] + bads + goods[1:], mods + [('mcb_good', GOOD)])
        path = [good]
    else:
        dist(good, 'mcb_good', goods, [('mcb_good', GOOD)])
        dist(bad, 'mcb_bad', bads, mods)
        path = [bad, good] if where == 'before' else [good, bad]
    r = subprocess.run([sys.executable, '-I', '-c', textwrap.dedent(PROBE) % {'repo': REPO, 'verif': VERIF, 'path': path}],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=50, cwd=ctx.scratch)
    require(r.returncode == 0, 'plug-ins that cannot be loaded keep the library from working', broken=list(broken), where=where, stderr=r.stderr[-600:])
    want = ['file', 'good1', 'good2', 'memory', 'zip']
    got = [line.split()[1:] for line in r.stderr.splitlines() if line.startswith(('SCHEMES ', 'FACTORIES '))]
    require(got == [want, want], 'plug-ins that cannot be loaded keep others from being registered', broken=list(broken), where=where, got=got, expected=want)
    ctx.count('transitions')
    ctx.count('traces')
    ctx.see('states', (broken, where))


def ops_of(paths, links):
    """operations for every path and pairs with a fixed set of destinations"""
    dests = [('a',), ('t', 'new'), ('o',), ('o', 'f'), ('new', 'er'), ('t',)]
    for p in paths:
        yield ('makedirs', p)
        yield ('makedirs', p + ('k', 'l'))
        yield ('remove', p)
        yield ('rmr', p)
        for d in dests:
            yield ('copy', p, d, True)
            yield ('copytree', p, d, True)
            yield ('copytree', p, d, True, ['a', 'c'])
            yield ('move', p, d)
            if links:
                yield ('copy', p, d, False)
                yield ('copytree', p, d, False)


def aliased(st, op):
    "does it depend on which paths are the same file, other than by their spelling?"
    if op[0] not in ('copy', 'copytree', 'move'):
        return False
    s, d = op[1], op[2]

    def has_link(p):
        return any(rm.islink(st, p[:n]) for n in range(1, len(p) + 1))
    return has_link(d) or has_link(s) or has_link(d + s[-1:]) or any(nd[0] == 'l' and nd[1][:len(d)] == d for nd in st.values())


def run_bare(ctx, forest):
    defaults(ctx, 'bare', forest)


def run_mini(ctx, forest):
    defaults(ctx, 'mini', forest)


def defaults(ctx, scheme, forest):
    ns = load()
    plug = ns.plug
    links = scheme == 'mini'
    nodes = shapes.place(forest, ('t',), ('o',)) + shapes.outside()[:2] + ([shapes.outside()[2]] + shapes.outside()[3:4] if links else [])
    st0 = shapes.state_of(nodes)
    plug.Controls.faults = None

    def fresh():
        ns.REG.cleanup(force=True)
        d = Drive(ns.URI('%s:///' % scheme), scheme)
        d.root.get_connection().st = dict(st0)
        return d
    drive = fresh()
    paths = [p for p in sorted(st0) if p[0] == 't'] + [('t', 'missing')]
    for p in paths:
        # queries made of others
        u = drive.uri(p)
        if rm.isdir(st0, p):
            for td in (True, False):
                for fol in ((True, False) if links else (True,)):
                    want = [(r, list(d), list(f)) for r, d, f in rm.walk(st0, p, td, fol)]
                    got = [(tuple(x for x in r.path.split('/') if x), list(d), list(f)) for r, d, f in u.walk(topdown=td, followlinks=fol)]
                    require(got == want, 'walk over a minimal backend is wrong', scheme=scheme, tree=show_state(st0), top=p, topdown=td, followlinks=fol, got=got, expected=want)
            for pat in ('*', 'a*', '?', '[!a]', 'nothing'):
                import fnmatch
                want = sorted(str(drive.uri(p + (n,))) for n in rm.listdir(st0, p) if fnmatch.fnmatchcase(n, pat))
                require(sorted(map(str, u.glob(pat))) == want, 'glob over a minimal backend is wrong', scheme=scheme, tree=show_state(st0), top=p, pattern=pat)
        elif rm.isfile(st0, p):
            require(u.md5() == hashlib.md5(rm.read(st0, p)).hexdigest(), 'md5 over a minimal backend is wrong', scheme=scheme, tree=show_state(st0), path=p)
        if not links:
            require(u.islink() is False, 'islink of a backend without links is not False', path=p)
            for what, f in (('symlink', lambda: u.symlink(drive.uri(('t', 'nl')))), ('readlink', u.readlink)):
                try:
                    f()
                except ns.base.OperationIsNotSupportedOnPlatform:
                    pass
                else:
                    raise Violated('%s worked on a backend without links' % what, path=p)
        ctx.count('transitions', 8)
    same_state(drive, st0, 'queries')
    for op in ops_of(paths, links):
        st = dict(st0)
        if links and aliased(st, op):
            continue
        try:
            want = model_apply(st, op)
        except rm.Cyclic:
            continue
        drive = fresh()
        got = drive.apply(op)
        same_outcome(drive, op, got, want, ())
        if want[0] == 'no' and op[0] == 'copytree':
            continue        # may have stopped in the middle
        conn = drive.root.get_connection()
        require(conn.st == (st if want[0] == 'ok' else st0), 'wrong tree after %s over a minimal backend' % show(op), tree=show_state(st0), got=show_state(conn.st),
                expected=show_state(st))
        ctx.count('transitions')
        ctx.see('states', rm.canon(st))
    if not links:
        across(ctx, fresh, st0, paths)
    ctx.count('traces')


def across(ctx, fresh, st0, paths):
    "copy and move between the minimal backend and the memory backend"
    ns = load()
    for p in paths[:4]:
        for op in ('copy', 'copytree', 'move'):
            for back in (False, True):
                drive = fresh()
                mem = Drive(ns.URI('memory:///'), 'memory')
                src, dst = (drive, mem) if not back else (mem, drive)
                if back:
                    for q in sorted(st0):
                        nd = st0[q]
                        if nd[0] == 'd':
                            mem.uri(q).mkdir()
                        else:
                            with mem.uri(q).open('wb') as f:
                                f.write(nd[1])
                    drive.root.get_connection().st = {}
                both = {('s',) + q: nd for q, nd in st0.items()}
                both[('s',)] = both[('z',)] = ('d',)
                # no mode goes across, for a start
                both = {q: (nd[:2] + (0,) if nd[0] == 'f' else nd) for q, nd in both.items()}
                want = model_apply(both, (op, ('s',) + p, ('z', 'n')) + ((True,) if op != 'move' else ()))
                try:
                    if op == 'move':
                        src.uri(p).move(dst.uri(('n',)))
                    else:
                        src.uri(p).copy(dst.uri(('n',)), recursive=op == 'copytree')
                    got = 'ok'
                except (OSError, ns.PathError, AssertionError) as e:
                    got = repr(e)
                require((got == 'ok') == (want[0] == 'ok'), '%s between backends' % op, source=p, back=back, got=got, expected=want, tree=show_state(st0))
                for d, k in ((src, 's'), (dst, 'z')):
                    exp = {q[1:]: nd for q, nd in both.items() if q[0] == k and len(q) > 1}
                    now = {q: (nd[:2] + (0,) if nd[0] == 'f' else nd) for q, nd in d.observe(modes=False).items()}
                    require(now == exp, 'wrong tree after %s between backends' % op, side=d.name, source=p, got=show_state(now), expected=show_state(exp))
                ctx.count('transitions')
