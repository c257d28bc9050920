"""C15: URIs share a connection exactly when all connection parameters agree."""
from itertools import product

from ..common import load, require

BOUNDS = {
    'quick': 'all settings of scheme (4), host (4, two differ in case), port (2), user (4), password (5), archive (4; upper and lower case differ), extras (17, among them empty and falsy ones), in every way to give them (about 8000 URIs), all pairs, two orders, three paths',
    'thorough': 'the same with more values of user and extras',
}
ASSUMPTIONS = ['a parameter is given in one way only']
WORKERS = 2
SCHEMES = ('rec', 'rec2', 'http', 'https')
EXTRAS = ({}, {'k': '1'}, {'k': '2'}, {'other': '1'}, {'k': '1', 'other': '1'}, {'k': ''}, {'k': '0'}, {'K': '1'}, {'k': '1', 'other': ''})
KEYWORDS = ({'k': 0}, {'k': None}, {'k': 2.5}, {'k': ('x',)}, {'k': ()}, {'k': b''}, {'l': None}, {'k': None, 'l': None})     # never in a query


def settings(thorough):
    "-> (parameters, uri text, keyword arguments)"
    users = (None, 'u1', '0', 'U1') + (('u3',) if thorough else ())
    for scheme, host, port, user, pw, conn, extra in product(
            SCHEMES, ('', 'h1', 'h2.example.org', 'H1'), (0, 21), users, (None, 'p1', 'u1', '0', 'P1'), ('', 'memory:///a.zip', 'memory:///b.zip', 'memory:///A.zip'), EXTRAS + KEYWORDS):
        if conn and (host or port) or port and not host:
            continue
        if host == 'H1' and (user or pw):
            continue
        if scheme in ('http', 'https') and (conn or not host):
            continue
        if (user == 'U1') + (pw == 'P1') + (conn[:-4] == 'memory:///A') > 1 or (user == 'U1' or pw == 'P1') and extra:
            continue
        if extra in KEYWORDS and (user or pw) and port:
            continue
        ways = ['a', 'k', 'q'] if scheme not in ('http', 'https') else ['a', 'k']
        for uw, pw_way, ew in product(ways if user else ['-'], ways if pw else ['-'], ['k', 'q'] if extra in EXTRAS[1:] and scheme not in ('http', 'https') else ['k']):
            if conn and 'a' in (uw, pw_way):
                continue
            kw, query = {}, {}
            auth = ''
            if uw == 'a':
                auth += user
            if pw_way == 'a':
                auth += ':' + pw
            if auth:
                auth += '@'
            for way, name, value in ((uw, 'username', user), (pw_way, 'password', pw)):
                if way == 'k':
                    kw[name] = value
                elif way == 'q':
                    query[name] = value
            (kw if ew == 'k' else query).update(extra)
            text = '%s://%s%s' % (scheme, auth, host)
            if port:
                text += ':%d' % port
            if conn:
                text += '((%s))' % conn
            key = (scheme, host, port, user or '', pw or '', conn, tuple(sorted(extra.items(), key=repr)))
            yield key, text, kw, query


def cases(ctx):
    for order in (0, 1):
        for part in ('/p', '/other/path', '/'):
            yield (order, part)


def run(ctx, case):
    ns = load()
    ns.REG.cleanup(force=True)
    order, path = case
    rec = ns.plug.RecordingFileSystem
    rec.created[:] = []
    rec.calls[:] = []
    todo = list(settings(ctx.thorough))
    if order:
        todo.reverse()
    by_key, by_conn = {}, {}
    for i, (key, text, kw, query) in enumerate(todo):
        full = text + (path if i % 3 else '/x%d' % (i % 7))
        if key[0] in ('http', 'https') and i % 2:
            query = dict(query, anything='1')      # of no concern to the connection
        if query:
            full += '?' + '&'.join('%s=%s' % x for x in query.items())
        u = ns.URI(full, **dict(kw))
        n = len(rec.created)
        u.exists()
        conn, arg = rec.calls[-1]
        require(arg == u, 'the backend is called with %s instead of %s' % (arg, u))
        ctx.count('transitions')
        ctx.see('states', (full, tuple(sorted(kw.items(), key=repr))))
        what = '%s with %r' % (full, kw)
        if key in by_key:
            require(by_key[key][0] is conn, '%s does not share the connection of %s' % (what, by_key[key][1]), key=key)
            require(len(rec.created) == n, '%s: a connection is created though there is one' % what)
        else:
            require(id(conn) not in by_conn, '%s shares the connection of %s' % (what, by_conn.get(id(conn), [0, 0])[1]), key=key)
            require(len(rec.created) == n + 1, '%s: %d connections are created' % (what, len(rec.created) - n))
            by_key[key] = by_conn[id(conn)] = (conn, what)
            got = (conn.scheme, conn.hostname or '', conn.port or 0, conn.username or '', conn.password or '', conn.vpath_connector or '',
                   tuple(sorted(conn.extras.items(), key=repr)))
            require(got == key, '%s: the connection is created with %r, expected %r' % (what, got, key))
    require(len(by_key) == len(by_conn), 'connections are mixed up')
    ctx.count('traces', len(by_key))
    ctx.sample({'uris': [x[1] for x in todo[:5]], 'connections': len(by_key)})
