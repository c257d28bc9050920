"""C24: joining and splitting paths are inverse and act on the path alone."""
import os.path
from itertools import product

from ..common import load, require

AUTHORITIES = [('', {}), ('memory://', {}), ('memory://', {'tag': '1'}), ('rec://', {}), ('rec://h', {}), ('rec://u:p@h:1', {}), ('rec://h', {'username': 'n', 'x': 'y'}),
               ('http://h:80', {}), ('http://u@h', {}), ('https://h', {}), ('sftp://u@h', {}), ('rec://((memory:///z.zip))', {}), ('zip://((/a b.zip))', {}),
               ('zip://((zip://((rec://u:p@h:1/o.zip?k=v))/i.zip))', {})]
PATHS = ('/', '/a', '/a/', '/a/b', '/.h', '/a b/c#d', '/a//b', '/\u00fc/%20+', '/x.d/y.e', '/a/.h/', '/((x))/y', '/a:b/@')
RELATIVE = ('a', './a', 'a/b', '.h', '../a', '.', '..', 'a b#', '../../a/b', '.h/.g', '...')
QUERIES = ('', '?k=v', '?k=a/b&l=')
NAMES = ('x', '.h', 'a.b', 'a.tar.gz', '.h.x', 'x y', ' ', '\u00e4', '%20', '+', 'c#d', 'a\nb', '#\n', '((x))', 'a:b', 'u@h', '&k=v', '...', '.h.', '~', ';', "'", 'x' * 300)
SUFFIXES = ('.txt', '~', '-1', '', '\u00e4', ' ', '%', '#1', '.', ':')
BOUNDS = {
    'quick': '%d authorities x %d paths x %d queries and %d relative paths, joined with all pairs out of %d names, %d suffixes' % (
        len(AUTHORITIES), len(PATHS), len(QUERIES), len(RELATIVE), len(NAMES), len(SUFFIXES)),
    'thorough': 'the same with all triples of names',
}
ASSUMPTIONS = ['names have no "/" or "?" and are not "." or "..", those of http have no "#"; suffixes have no "/" or "?"']


def bases():
    for text, kw in AUTHORITIES:
        for path in PATHS:
            for q in QUERIES:
                if q and (not text or text.startswith('zip')) or '#' in path and text.startswith('http'):
                    continue
                yield text + path + q, kw
        if text and text[-1] != '/':
            yield text, kw
            yield text + '?k=v', kw
    for path in RELATIVE:
        yield path, {}


def cases(ctx):
    for i, b in enumerate(bases()):
        yield (b[0], sorted(b[1].items()))


def same_home(ns, u, v, what):
    "everything but the path agrees"
    require(type(v) is type(u), 'another type', where=what, got=str(v))
    for attr in ('scheme', 'sep'):
        require(getattr(u, attr) == getattr(v, attr), '%s is lost' % attr, where=what, got=str(v))
    for attr in ('hostname', 'port', 'username', 'password', 'vpath_connector'):
        require((getattr(u, attr) or None) == (getattr(v, attr) or None), '%s is lost' % attr, where=what, got=str(v))
    if u.scheme in ns.fs.CONNECTION_REGISTRY.schemes and not (u.scheme == 'memory' and u.hostname):
        require(v.get_connection() is u.get_connection(), 'another connection', where=what, got=str(v))


def plus(path, rest):
    if path == '':
        return '/' + rest
    return path.rstrip('/') + '/' + rest


def parent(path):
    head, slash, _ = path.rpartition('/')
    if slash and not head:
        return '/'
    return head if slash else path


def norm(path):
    "up to the trailing slash and the explicit start at the working directory"
    if path == '':
        return '/'      # a host and nothing more
    if path.startswith('./'):
        path = path[2:]
    return (path.rstrip('/') or '/') if path.startswith('/') else path.rstrip('/') or '.'


def run(ctx, case):
    ns = load()
    ns.REG.cleanup(force=True)
    text, kw = case
    u = ns.URI(text, **dict(kw))
    before = (str(u), dict(u.query), dict(u.extras))
    http = u.scheme in ('http', 'https')
    p = u.path
    what = text
    for name in NAMES:
        if http and '#' in name:
            continue
        j = u / name
        what = '%s / %r' % (text, name)
        require(norm(j.path) == norm(plus(p, name)), 'joined to another path', where=what, got=j.path, expected=plus(p, name))
        same_home(ns, u, j, what)
        require(j.query == u.query, 'the query is lost', where=what, got=j.query)
        require(j.basename() == name, 'basename is wrong', where=what, got=j.basename())
        require(j.last() == name, 'last is wrong', where=what, got=j.last())
        require(j.splitext() == os.path.splitext(name), 'splitext is wrong', where=what, got=j.splitext())
        head, tail = j.split()
        require(tail == name, 'split is wrong', where=what, got=tail)
        for d in (head, j.dirname(), j.directory(), j.directory(1)):
            require(norm(d.path) == norm(p), 'the directory is another one', where=what, got=d.path, expected=p)
            same_home(ns, u, d, what + ', its directory')
        slash = u / (name + '/')
        require(slash.path == j.path + '/', 'the slash at the end is lost or doubled', where=what, got=slash.path)
        require(slash.last() == name and slash.basename() == '', 'last or basename is wrong with a slash at the end', where=what, got=(slash.last(), slash.basename()))
        require(slash.splitext() == ('', ''), 'splitext is not that of the basename', where=what, got=slash.splitext())
        require((u / ('/' + name)).path == j.path, 'the slash in front is doubled', where=what, got=(u / ('/' + name)).path)
        require(j.join('') == slash or norm(j.join('').path) == norm(j.path), 'joining nothing leads elsewhere', where=what)
        require(u.join(name) == j and u.__truediv__(name) == j, 'join is not /', where=what)
        for s in SUFFIXES:
            if http and '#' in s:
                continue
            k = j + s
            require(k.path == j.path + s, 'the suffix does not go to the path', where='%s + %r' % (what, s), got=k.path)
            same_home(ns, u, k, '%s + %r' % (what, s))
            require(k.query == u.query, 'the query is lost', where='%s + %r' % (what, s), got=k.query)
            if name + s not in ('.', '..'):
                require(k.basename() == name + s, 'basename is wrong', where='%s + %r' % (what, s), got=k.basename())
            ctx.count('transitions')
        for other in NAMES:
            if http and '#' in other:
                continue
            a = u / name / other
            ways = [u / ('%s/%s' % (name, other)), u.join(name, other), u.join(name + '/', other), u.join('/' + name + '/', '/' + other), u / name / ('/' + other),
                    (u / (name + '/')) / other]
            for w in ways:
                require(w == a and w.path == a.path and str(w) == str(a), 'joining in another way leads elsewhere', where='%s / %r' % (what, other), got=str(w), expected=str(a))
            same_home(ns, u, a, what)
            require(norm(a.path) == norm(plus(plus(p, name), other)), 'joined to another path', where='%s / %r' % (what, other), got=a.path)
            up = a.directory(2)
            require(norm(up.path) == norm(p), 'directory(2) is wrong', where='%s / %r' % (what, other), got=up.path)
            same_home(ns, u, up, what)
            ctx.count('transitions')
            if ctx.thorough:
                for third in NAMES:
                    if http and '#' in third:
                        continue
                    b = a / third
                    require(b == u.join(name, other, third) == u / '/'.join((name, other, third)), 'joining in another way leads elsewhere', where=str(b))
                    require(norm(b.directory(3).path) == norm(p) and b.last() == third, 'directory(3) or last is wrong', where=str(b))
                    ctx.count('transitions')
        ctx.see('states', (text, name))
        ctx.count('traces')
    # up to the root
    v = u
    for n in range(1, 6):
        w = v.dirname()
        require(w.path == u.directory(n).path, 'directory(%d) is not dirname applied %d times' % (n, n), where=text, got=u.directory(n).path)
        same_home(ns, u, w, 'the directory of %s' % v)
        if v.path.startswith('/'):
            require(w.path == parent(v.path), 'the directory is wrong', where=str(v), got=w.path, expected=parent(v.path))
            require(v.basename() == v.path.rpartition('/')[2], 'basename is wrong', where=str(v), got=v.basename())
        if v.path == '/':
            require(w.path == '/' and v.last() == '' and v.basename() == '', 'the root is not its own parent', where=str(v), got=w.path)
        require(v.splitext() == os.path.splitext(v.basename()), 'splitext is not that of the basename', where=str(v), got=v.splitext())
        v = w
    require(before == (str(u), dict(u.query), dict(u.extras)), 'the URI itself has changed', where=text)
