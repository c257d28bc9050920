"""C34: URIs can be copied and pickled."""
import copy
import pickle
from itertools import product

from ..common import load, require

AUTH = {
    'rec': ['', 'h', 'h:1', 'u@h', 'u:p@h:1', '((memory:///a.zip))'],
    'memory': ['', 'u@'],
    'file': [''],
    'zip': ['((memory:///z.zip))', '((zip://((memory:///o.zip))/i.zip))'],
    'http': ['h', 'u:p@h:1'],
    'https': ['h', 'u:p@h:1'],
    'nobody': ['h', 'u:p@h:1'],
}
PATHS = ['/a/b', '/', '/a b/c%d', '/.h/x']
PARAMS = [({}, {}), ({'k': 'v', 'sep': ':', 'uri': 'x'}, {}), ({}, {'k': 'v'}), ({'k': 'a b&c=d/e#'}, {'l': 'w'}), ({'username': 'n'}, {}), ({}, {'username': 'n', 'password': 's'})]
PLAIN = [('a', {}), ('./a', {}), ('../a', {}), ('.', {}), ('/a#b', {}), ('C:\\a\\b', {'sep': '\\'}), ('C:\\', {'sep': '\\'}), ('a\\b', {'sep': '\\'}), ('.h', {})]
WAYS = {'copy': copy.copy, 'deepcopy': copy.deepcopy}
for _p in range(pickle.HIGHEST_PROTOCOL + 1):
    WAYS['pickle%d' % _p] = lambda u, p=_p: pickle.loads(pickle.dumps(u, p))
WAYS['list'] = lambda u: copy.deepcopy([u, u])[1]
WAYS['dict'] = lambda u: copy.deepcopy({'k': (u, 1)})['k'][0]
WAYS['shallow-list'] = lambda u: copy.copy([u])[0]
WAYS['reduce'] = lambda u: pickle.loads(pickle.dumps({'k': [u]}))['k'][0]
DERIVE = {
    'same': lambda ns, u: u, 'sep': lambda ns, u: setsep(u), 'extras': lambda ns, u: setextras(u), 'join': lambda ns, u: u / 'x', 'dirname': lambda ns, u: u.dirname(), 'add': lambda ns, u: u + '.s', 'uri': lambda ns, u: ns.URI(u),
    'query': lambda ns, u: setquery(u), 'credentials': lambda ns, u: setcredentials(u),
}
BEFORE = ('fresh', 'used', 'connected', 'query', 'credentials', 'derived')
BOUNDS = {
    'quick': '%d authorities of 7 schemes x %d paths x %d sets of parameters, and %d plain paths, in 6 states, copied in %d ways, once and twice, with %d derivations in between'
             % (sum(map(len, AUTH.values())), len(PATHS), len(PARAMS), len(PLAIN), len(WAYS), len(DERIVE)),
    'thorough': 'three copies in a row',
}
ASSUMPTIONS = ['the copy is asked for in the process of the original']


def setquery(u):
    u = copy.deepcopy(u)
    u.query['late'] = 'q'
    return u


def setsep(u):
    u = copy.deepcopy(u)
    u.sep = '\\'
    return type(u)(u)


def setextras(u):
    "an URI made of another has extras of its own"
    v = type(u)(u)
    v.extras['late'] = 'e'
    v.query['late'] = 'f'
    v.username = 'later'
    require('late' not in u.extras and 'late' not in u.query and u.username != 'later', 'a URI made of another changed it', uri=str(u))
    return v


def setcredentials(u):
    u = copy.deepcopy(u)
    u.username, u.password = 'late', 'secret'
    return u


def cases(ctx):
    from urllib.parse import urlencode
    for scheme in AUTH:
        for a in AUTH[scheme]:
            for path in PATHS:
                for q, kw in PARAMS:
                    if scheme in ('file', 'zip') and (q or kw):
                        continue
                    yield (scheme + '://' + a + path + ('?' + urlencode(q) if q else ''), kw)
    for text, kw in PLAIN:
        yield (text, kw)


def parts(u):
    return {
        'type': type(u).__name__, 'str': str(u), 'uri': u.uri, 'sep': u.sep, 'scheme': u.scheme, 'hostname': u.hostname, 'port': u.port, 'username': u.username,
        'password': u.password, 'connector': u.vpath_connector, 'path': u.path, 'unipath': u.unipath, 'query': dict(u.query), 'extras': dict(u.extras), 'key': u._key(),
        'all': u._extras(), 'basename': u.basename(), 'dir': str(u.dirname()),
    }


def connection(ns, u):
    try:
        return u.get_connection()
    except ns.fs.NoSchemeError:
        return None


def start(ns, text, kw, before):
    u = ns.URI(text, **dict(kw))
    if before == 'used':
        try:
            u.exists()
        except Exception:
            pass
    elif before == 'connected':
        u.connection = connection(ns, u)
    elif before == 'query':
        u.query['own'] = '1'
    elif before == 'credentials':
        u.username, u.password = 'me', 'mine'
    elif before == 'derived':
        u = ns.URI(u / 'x' / 'y').dirname()
    return u


def alike(ns, u, want, conn, **where):
    got = parts(u)
    diff = {k: [want[k], got[k]] for k in want if got[k] != want[k]}
    require(not diff, 'a copied URI differs from its original', expected_got=diff, **where)
    require(connection(ns, u) is conn, 'a copied URI has another connection', **where)


def run(ctx, case):
    ns = load()
    text, kw = case
    ns.REG.cleanup(force=True)
    ways = sorted(WAYS)
    short = [w for w in ways if w in ('copy', 'deepcopy', 'pickle2', 'pickle5')]
    for before in BEFORE:
        u = start(ns, text, kw, before)
        want, conn = parts(u), connection(ns, u)
        where = dict(uri=text, kw=kw, before=before)
        for way in ways:
            v = WAYS[way](u)
            alike(ns, v, want, conn, way=way, **where)
            require(v == u and u == v and not v != u, 'a copied URI is not equal to its original', way=way, **where)
            alike(ns, u, want, conn, way=way, which='original', **where)
            independent(ns, u, v, want, conn, way, where)
            ctx.count('transitions')
            for name, other in product(sorted(DERIVE), ways if ctx.thorough else short):
                a, b = DERIVE[name](ns, u), DERIVE[name](ns, WAYS[way](u))
                w2, c2 = parts(a), connection(ns, a)
                alike(ns, b, w2, c2, way=[way, name], **where)
                c = WAYS[other](b)
                alike(ns, c, w2, c2, way=[way, name, other], **where)
                if ctx.thorough:
                    for third in short:
                        alike(ns, WAYS[third](c / 'z'), parts(a / 'z'), connection(ns, a / 'z'), way=[way, name, other, 'join', third], **where)
                        ctx.count('transitions')
                ctx.count('transitions', 2)
        for name in ('nothing', '_nothing', '__nothing__', '__deepcopy__x', 'connection_'):
            try:
                getattr(u, name)
            except AttributeError:
                continue
            require(False, 'an attribute that is not there has a value', name=name, **where)
        ctx.see('states', (before, want['str'], sorted(kw.items())))
        ctx.count('traces')
    operations(ctx, ns, text, kw)


def independent(ns, u, v, want, conn, way, where):
    "of original and copy, changing one leaves the other"
    if way in ('copy', 'shallow-list'):
        return
    v.query['changed'] = 'yes'
    v.extras['changed too'] = 'yes'
    v.username = 'somebody'
    v.scheme = 'other'
    alike(ns, u, want, conn, way=way, which='the original, after the copy was changed', **where)
    v = WAYS[way](u)
    u2 = WAYS['deepcopy'](u)
    u2.query['changed'] = 'yes'
    u2.extras['changed too'] = 'yes'
    u2.password = 'nothing'
    alike(ns, v, want, conn, way=way, which='the copy, after another copy was changed', **where)


def operations(ctx, ns, text, kw):
    "a copy reaches what its original reaches"
    if not text.startswith(('memory:', 'rec:')):
        return
    if text.startswith('rec:'):
        rec = ns.plug.RecordingFileSystem
        u = ns.URI(text, **dict(kw))
        u.exists()
        first = rec.calls[-1]
        for way in sorted(WAYS):
            v = WAYS[way](u)
            del rec.calls[:]
            v.exists()
            require(len(rec.calls) == 1 and rec.calls[0][0] is first[0], 'the operation of a copy reached another backend', uri=text, kw=kw, way=way)
            ctx.count('transitions')
        return
    for way in sorted(WAYS):
        ns.REG.cleanup(force=True)
        u = ns.URI(text, **dict(kw)) / 'top'
        u.makedirs()
        f = u / 'f'
        with f.open('wb') as h:
            h.write(b'content')
        for g in (WAYS[way](f), WAYS[way](u) / 'f', WAYS[way](WAYS[way](u) / 'f')):
            with g.open('rb') as h:
                require(h.read() == b'content', 'a copied URI reads something else', uri=text, kw=kw, way=way)
        with WAYS[way](u / 'g').open('wb') as h:
            h.write(b'new')
        require((u / 'g').isfile() and sorted(WAYS[way](u).listdir()) == ['f', 'g'], 'what is written through a copied URI is not there', uri=text, kw=kw, way=way)
        WAYS[way](f).remove()
        require(not f.exists(), 'what is removed through a copied URI is still there', uri=text, kw=kw, way=way)
        ctx.count('transitions', 6)
