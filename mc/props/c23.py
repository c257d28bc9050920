"""C23: parsing a printed URI gives the same URI."""
import re
from itertools import product
from urllib.parse import parse_qsl, quote_plus, urlencode

from ..common import load, require

LEVEL = 'model_checking'
SCHEMES = ('rec', 'rec2', 'sftp', 'svn+ssh', 'x-1.y', 'SFTP', 'http')
USERS = (None, ('u', None), ('u', 'p'), ('u', 'p:q'), ('u.x-y_z', '!$%20'), ('u', '/p'), ('\u00fc', '\u00df'), ('0', '0'))
HOSTS = (None, 'h', 'h-1.example.org', 'localhost', '127.0.0.1', '0')
PORTS = (None, 1, 80, 65535)
PATHS = ('', '/', '/p', '/p/q', '/p/', '//p', '/p//q', '/p q', '/\u00e4/\u4e2d', '/p%20q', '/p+q', '/p&q=r', '/p;x', '/p:1', '/p@q', '/a,b!c$d', '/p(x)', "/'p'",
         '/.h', '/p.', '/p/.h', '/~', '/*', '/[x]', '/p=', '/((x))', '/p#f', '/p#f/g', '/#', '/x://y', '/a\n#b\nc')
QUERIES = ((), (('k', 'v'),), (('k', ''),), (('k', 'v'), ('l', 'w')), (('l', 'w'), ('k', 'v')), (('k', 'a b&c=d#e?f'),), (('\u00fc', '\u00e4'),),
           (('username', 'n'),), (('password', 'n'), ('username', 'm')))
# query items that are written as they are
RAW = ('x://y', '/p', '/p/q', 'a:b@c', '@', ':', 'u:p@h:1/p', 'x?y', '?', '((x))', '((', '))', "!$()*,;~.-_'", '[0]', 'file:///x', 'zip://((/a))/b', '//', '.', '..')
CONNECTORS = ('/a.zip', 'file:///a.zip', 'memory:///a.zip', 'memory:///a.zip?tag=1', 'rec://u:p@h:1/d/a.zip?k=v&l=w', 'zip://((/o.zip))/i.zip',
              'zip://((zip://((memory:///o.zip))/i.zip))/j.zip', 'zip://((zip://((zip://((zip://((rec://h/o.zip))/i.zip))/j.zip))/k.zip))/l.zip', '/a b#c.zip', 'zip://((memory:///o.zip?x=y))/i (1).zip', 'rec://h/a.zip', './a.zip',
              '/a (1)', '/(a)', 'memory:///(a', '/a)', '(a).zip')
CHARS = [chr(i) for i in range(32, 127)] + ['\u00e4', '\u4e2d', '\U0001f600', '\t', '\n', '\r', '\0', '\x7f', '\xa0', '', '%20', '%', '+ ', ' x ', '&amp;', '((', '))', '\u2028']
LOCAL = ('/', '/a', '/a/b', '/a/b/', '/a b', '/a#b', '/#', '/\u00e4', '/a%20b', '/.h', '/a/.h', '/a:b', '/~', "/a'b", '/a//b', '/a;b', '/a&b=c', '/a+b', '/((a))', '/a/((b', '/a.',
         '/a*', '/[a]', '/a@b', '/a=b', '/..h', '/...', '/ ', '/a/ ', '/x:/y', '/a\nb', '/a#\nb', '/a/x://y', '/x://y/z://', '/a/memory://b')
RELATIVE = ('a', 'a/b', './a', './a/b', '.h', '..h', 'a b', 'a#b', '#', '\u00e4', 'ab:c', '../a', './../a', '../../a', '.', '..', './.h', '((a))', 'a@b', '~', '...', 'a/x://y', './x://y', '../x://y', './a/../memory:///b')
BOUNDS = {
    'quick': 'the product of %d schemes, %d credentials, %d hosts, %d ports, %d paths and %d queries that belong to the grammar; %d connectors x paths x queries; '
             'all pairs of %d key and value characters, parsed and set; %d local paths' % (
                 len(SCHEMES), len(USERS), len(HOSTS), len(PORTS), len(PATHS), len(QUERIES), len(CONNECTORS), len(CHARS), len(LOCAL) + len(RELATIVE)),
    'thorough': 'the same with all pairs of characters on all schemes and at either end of longer keys and values',
}
ASSUMPTIONS = ['"@" and "/" do not occur in user, password and host other than listed; no literal IPv6 hosts; a local path does not begin with a letter and a colon (a drive); a query item has exactly one "=" and is not named like a parameter of the backend constructor (port, hostname)']


def cases(ctx):
    for scheme, user, host in product(SCHEMES, range(len(USERS)), range(len(HOSTS))):
        if host == 0 and (user != 0 or scheme == 'http'):
            continue
        yield ('full', scheme, user, host)
    for c in range(len(CONNECTORS)):
        yield ('zip', c)
    for scheme in SCHEMES if ctx.thorough else ('rec', 'http'):
        for c in range(len(CHARS)):
            yield ('chars', scheme, c)
    yield ('local',)
    yield ('raw',)
    yield ('empty',)


def text_of(scheme, user, host, port, path, query, fragment=''):
    t = scheme + '://'
    if user:
        t += user[0] + (':' + user[1] if user[1] is not None else '') + '@'
    if host:
        t += host
    if port:
        t += ':%d' % port
    t += path
    if query:
        t += '?' + urlencode(query)
    return t + fragment


def run(ctx, case):
    ns = load()
    globals()['do_' + case[0]](ctx, ns, *case[1:])


def parts(u):
    return dict(scheme=u.scheme, user=u.username or None, password=u.password or None, host=u.hostname or None, port=u.port or None,
                path=u.path, query=dict(u.query), connector=u.vpath_connector or None)


def expect(u, want, text):
    got = parts(u)
    require(got == want, 'parsed into wrong parts', text=text, got=got, expected=want)


def again(ns, ctx, u, want, text):
    "the printed URI is the same one"
    s = str(u)
    v = ns.URI(s)
    require(v == u and not v != u and u == v, 'the printed URI is another one', text=text, printed=s)
    expect(v, want, s)
    require(type(v) is type(u), 'the printed URI is of another type', text=text, printed=s)
    require(str(v) == s, 'printing is not stable', text=text, first=s, second=str(v))
    require(repr(u) == s, 'repr differs from str', text=text)
    ctx.count('transitions')


def same_connection(ns, u, v, text):
    if u.scheme in ns.fs.CONNECTION_REGISTRY.schemes:
        require(u.get_connection() is v.get_connection(), 'the printed URI has other connection parameters', text=text, printed=str(v))


def do_full(ctx, ns, scheme, user, host):
    user, host = USERS[user], HOSTS[host]
    if user and user[1] == '/p':
        return
    ns.REG.cleanup(force=True)
    for port, path, query in product(PORTS, PATHS, QUERIES):
        if port and not host:
            continue
        http = scheme == 'http'
        if http and '#' in path:
            continue
        for frag in ('', '#f') if http else ('',):
            text = text_of(scheme, user, host, port, path, query, frag)
            u = ns.URI(text)
            q = dict(query)
            want = dict(scheme=scheme, user=user[0] if user else q.get('username'), password=(user[1] if user else None) or q.get('password'),
                        host=host, port=port, path=path, query=q, connector=None)
            expect(u, want, text)
            require((u.fragment or '') == frag[1:], 'wrong fragment', text=text)
            again(ns, ctx, u, want, text)
            require((ns.URI(str(u)).fragment or '') == frag[1:], 'the fragment is lost', text=text, printed=str(u))
            # any reader of URIs finds the parts where they belong
            m = re.match(r'^([^:/?#]+)://([^/?#]*)([^?]*?)(?:\?([^#]*))?(#.*)?$', str(u))
            require(m and m.group(1) == scheme and m.group(2) == text_of('', user, host, port, '', ())[3:], 'printed with wrong authority', text=text, printed=str(u))
            if m.group(4):
                require(sorted(parse_qsl(m.group(4), keep_blank_values=True)) == sorted(query), 'printed with wrong query', text=text, printed=str(u))
            same_connection(ns, u, ns.URI(str(u)), text)
            same_connection(ns, u, ns.URI(u), text)
            ctx.count('traces')
            ctx.see('states', text)


def do_zip(ctx, ns, c):
    conn = CONNECTORS[c]
    for path, query in product(PATHS, QUERIES):
        if not path:
            continue
        ns.REG.cleanup(force=True)
        text = 'zip://((%s))%s%s' % (conn, path, '?' + urlencode(query) if query else '')
        u = ns.URI(text)
        q = dict(query)
        want = dict(scheme='zip', user=q.get('username'), password=q.get('password'), host=None, port=None, path=path, query=q, connector=conn)
        expect(u, want, text)
        again(ns, ctx, u, want, text)
        same_connection(ns, u, ns.URI(str(u)), text)
        ctx.count('traces')
        ctx.see('states', text)


def do_raw(ctx, ns):
    heads = [(text_of(s, user, host, port, path, ()), dict(scheme=s, user=user and user[0], password=user and user[1], host=host, port=port, path=path, connector=None))
             for s in SCHEMES for user in USERS[:3] for host in HOSTS[:3] for port in PORTS[:2] for path in ('', '/', '/p', '/p:1/q@r')
             if host or not (port or user or s == 'http')]
    heads += [('zip://((%s))%s' % (c, path), dict(scheme='zip', user=None, password=None, host=None, port=None, path=path, connector=c))
              for c in CONNECTORS for path in ('/', '/p')]
    for (head, want), raw in product(heads, RAW):
        for query in ({'k': raw}, {'k': raw, 'l': 'v'}, {'l': 'v', 'k': raw}):
            text = head + '?' + '&'.join('%s=%s' % kv for kv in query.items())
            want = dict(want, query=query)
            u = ns.URI(text)
            expect(u, want, text)
            again(ns, ctx, u, want, text)
            ctx.count('traces')
            ctx.see('states', text)
    for raw in RAW:
        for path in ('/', '/p', '/p/q'):
            text = 'file://%s?k=%s' % (path, raw)
            expect(ns.URI(text), dict(scheme='file', user=None, password=None, host=None, port=None, path=path, query={'k': raw}, connector=None), text)


def do_chars(ctx, ns, scheme, c):
    for other in CHARS:
        key, value = CHARS[c], other
        pairs = [(key, value)]
        if ctx.thorough:
            pairs += [('k' + key, value + 'v'), (key + 'k', 'v' + value)]
        for key, value in pairs:
            query = {key: value, 'z' + key: 'z'}
            text = '%s://h/p?%s' % (scheme, '&'.join('%s=%s' % (quote_plus(k), quote_plus(v)) for k, v in query.items()))
            want = dict(scheme=scheme, user=None, password=None, host='h', port=None, path='/p', query=query, connector=None)
            u = ns.URI(text)
            expect(u, want, text)
            again(ns, ctx, u, want, text)
            v = ns.URI('%s://h/p' % scheme)
            v.query[key] = value
            v.query['z' + key] = 'z'
            require(v == u, 'setting the query is not like parsing it', text=text)
            again(ns, ctx, v, want, text)
            ctx.count('traces')
            ctx.see('states', text)


def do_local(ctx, ns):
    for path in LOCAL:
        for text in (path, 'file://' + path):
            u = ns.URI(text)
            want = dict(scheme='file', user=None, password=None, host=None, port=None, path=path, query={}, connector=None)
            expect(u, want, text)
            require(str(u) == path, 'a local path is not printed as such', text=text, printed=str(u))
            again(ns, ctx, u, want, text)
            ctx.count('traces')
            ctx.see('states', text)
    for path in RELATIVE:
        u = ns.URI(path)
        want = dict(scheme='file', user=None, password=None, host=None, port=None, path=u.path, query={}, connector=None)
        require(u.path in (path, './' + path), 'a relative path is not kept', text=path, got=u.path)
        require(str(u) == u.path, 'a local path is not printed as such', text=path, printed=str(u))
        again(ns, ctx, u, want, path)
        ctx.count('traces')
        ctx.see('states', path)


def do_empty(ctx, ns):
    "what is empty is not there: a colon without a port, without a password, an @ without a user"
    for scheme, path, query in product(SCHEMES, ('', '/', '/p/q', '/p#f'), ('', '?k=v')):
        if scheme == 'http' and '#' in path:
            continue
        for user, pw, host, port in product((None, '', 'u'), (None, '', 'p'), ('h', 'h.x'), (None, '', '0', '7')):
            if user is None and pw is not None:
                continue
            info = '' if user is None else user + ('' if pw is None else ':' + pw) + '@'
            text = scheme + '://' + info + host + ('' if port is None else ':' + port) + path + query
            plain = text_of(scheme, (user or '', pw or None) if user or pw else None, host, int(port or 0) or None, path, [('k', 'v')] if query else ())
            u, v = ns.URI(text), ns.URI(plain)
            want = dict(scheme=scheme, user=user or None, password=pw or None, host=host, port=int(port or 0) or None, path=path, query={'k': 'v'} if query else {}, connector=None)
            require(parts(u) == want, 'a part that is left empty is taken for something', uri=text, got=parts(u), expected=want)
            require(u == v and v == u and u._key() == v._key(), 'a part that is left empty makes another URI', uri=text, plain=plain)
            for w in (ns.URI(str(u)), ns.URI(u), ns.URI(str(u / 'x')).dirname(), (u / 'x').dirname()):
                require(parts(w) == dict(want, path=w.path, query=want['query'] if w.query else {}) and w.path in (path, path or '/'), 'URI(str(u)) is another URI', uri=text, printed=str(u), got=parts(w))
                require(w._key() == u._key(), 'URI(str(u)) has other connection parameters', uri=text, got=w._key())
            ctx.count('transitions')
        ctx.count('traces')
        ctx.see('states', ('empty', scheme, path, query))
