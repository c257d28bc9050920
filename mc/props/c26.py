"""C26: URIs are equal exactly when they name the same thing."""
from itertools import product

from ..common import load, require

SCHEMES = ('rec', 'memory', 'sftp', 'http', 'revrec', 'zip', 'SFTP')
HOSTS = ('', 'h', 'H', 'h.x', 'h1')
PORTS = (0, 1, 10)
CONNECTORS = ('', '/a.zip', 'memory:///a.zip', 'memory:///a.zip?t=1', 'zip://((/a.zip))/a.zip')
PATHS = ('/', '/a', '/a/', '/A', '/a/b', '/ab', '//a', '/a b', '/a%20b', '/a+b', '/a#b', '/\u00e4', '/a\u0308')
QUERIES = ((), (('k', 'v'),), (('k', ''),), (('k', 'V'),), (('k', 'v'), ('l', 'w')), (('l', 'v'),), (('k', 'w'), ('l', 'v')), (('k', 'v&l=w'),))
USERS = ('', 'u@', 'v@', 'u:p@')
BOUNDS = {
    'quick': 'all pairs out of the product of %d schemes, %d hosts, %d ports, %d connectors, %d paths and %d queries with at most 3 parts off the first value, '
             'with credentials, keywords and derivations varied' % tuple(map(len, (SCHEMES, HOSTS, PORTS, CONNECTORS, PATHS, QUERIES))),
    'thorough': 'the same with at most 4 parts off the first value',
}
ASSUMPTIONS = ['the fragment of a http URI is not compared']


def points(limit):
    out = []
    for pt in product(*(range(len(x)) for x in (SCHEMES, HOSTS, PORTS, CONNECTORS, PATHS, QUERIES))):
        s, h, p, c, path, q = pt
        if sum(1 for x in pt if x) > limit:
            continue
        if p and not h or c and h:
            continue
        if SCHEMES[s] == 'http' and (not h or '#' in PATHS[path]):
            continue
        out.append(pt)
    return out


def text_of(pt, user='', order=0):
    from urllib.parse import urlencode
    s, h, p, c, path, q = pt
    t = SCHEMES[s] + '://'
    if HOSTS[h]:
        t += user + HOSTS[h] + (':%d' % PORTS[p] if PORTS[p] else '')
    elif CONNECTORS[c]:
        t += '((%s))' % CONNECTORS[c]
    elif user:
        t += user
    t += PATHS[path]
    if QUERIES[q]:
        t += '?' + urlencode(QUERIES[q][::-1] if order else QUERIES[q])
    return t


NPARTS = 32


def cases(ctx):
    for k in range(NPARTS):
        yield ('pairs', k)
    for k in range(NPARTS):
        yield ('ways', k)
    yield ('local',)


def equal(a, b, want, what):
    r = (a == b, b == a, a != b, b != a)
    require(r == (want, want, not want, not want), 'wrong comparison', got=r, expected=want, uris=what)


class Odd(object):
    pass


def run(ctx, case):
    ns = load()
    if case[0] == 'local':
        return local(ctx, ns)
    pts = points(4 if ctx.thorough else 3)
    k = case[1]
    if case[0] == 'pairs':
        uris = [ns.URI(text_of(pt)) for pt in pts]
        for i in range(k, len(pts), NPARTS):
            u = uris[i]
            for j in range(i, len(pts)):
                equal(u, uris[j], i == j, (str(u), str(uris[j])))
            ctx.count('transitions', len(pts) - i)
            ctx.see('states', pts[i])
        ctx.count('traces')
        return
    for i in range(k, len(pts), NPARTS):
        pt = pts[i]
        u = ns.URI(text_of(pt))
        ways = [ns.URI(u), type(u)(u), ns.URI(str(u)), ns.URI(text_of(pt, '', 1)), ns.URI(text_of(pt), username='x', extra='y'), ns.URI(text_of(pt), sep='/')]
        if not CONNECTORS[pt[3]]:
            ways += [ns.URI(text_of(pt, user)) for user in USERS]
        if not QUERIES[pt[5]]:
            d, _, b = u.path.rpartition('/')
            if b and not u.path.startswith('//'):
                ways += [ns.URI(text_of(pt[:4] + (0, 0))) / u.path[1:], (u / 'x').dirname() if not u.path.endswith('/') else u, u.dirname() / b]
        for v in ways:
            for w in ways:
                equal(v, w, True, (str(v), str(w)))
            equal(u, v, True, (str(u), str(v)))
        v = ns.URI(u)
        v.query['new'] = '1'
        equal(u, v, False, (str(u), str(v)))
        del v.query['new']
        equal(u, v, True, (str(u), str(v)))
        v.username = 'other'
        equal(u, v, True, (str(u), str(v)))
        for other in (None, str(u), u.path, 0, 1, '', b'', (), [], {}, object(), Odd, Odd(), u.parse_result, u.path.encode('utf-8')):
            require(not (u == other) and u != other and not (other == u) and other != u, 'equal to something that is no URI', uri=str(u), other=repr(other))
        require(u not in [str(u), None] and [u].index(v) == 0 and [v, u].count(u) == 2, 'lists do not find it', uri=str(u))
        ctx.count('transitions', len(ways) ** 2)
    ctx.count('traces')


def local(ctx, ns):
    paths = ('/', '/a', '/a/', '/A', '/a b', '/a#b', '/a%20b', '/a/b', './a', './a/b', '../a', './.h', '/.h', './ab', '/a\n')
    spell = [[ns.URI(p), ns.URI('file://' + p)] + ([ns.URI(p[2:])] if p.startswith('./') else []) + [ns.URI(p, sep='\\'), ns.URI(p, x='y')] for p in paths]
    for i, a in enumerate(spell):
        for j, b in enumerate(spell):
            for u, v in product(a, b):
                equal(u, v, i == j, (str(u), str(v)))
                ctx.count('transitions')
    equal(ns.URI('/a'), ns.URI('memory:///a'), False, 'file and memory')
    ctx.count('traces')
